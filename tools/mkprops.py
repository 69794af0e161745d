import json
P=[]
R="sdk/python/lib/pulumi/"
def p(id,title,statement,over,qtext,why,files,symbols):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=[R+f for f in files],mechanism=[dict(name=s,where=R+files[0] if len(files)==1 else ", ".join(R+f for f in files)) for s in symbols])))
p("C01","Output.apply propagates value, knownness, secretness and dependencies",
 "For every output and every callback, the output returned by apply is secret whenever the source output or an output returned by the callback is secret, depends on the union of their resources, is known only if the callback actually ran and any returned output is known, and its value is the callback's (unwrapped) result. During a preview the callback is never run on an unknown value unless the caller opted in, in which case it receives the unknown marker; otherwise the callback runs exactly once with the source value. If the callback raises, the failure surfaces on the result and the result's dependency, known and secret flags still resolve, with the source's resources and as not known.",
 ["inputs","configurations"],"every source output (any value, known/secret flags, resource set), every callback (returning a prompt value, an awaitable or an output, or raising), preview or update, both run_with_unknowns settings",
 "tests run apply on a handful of literal outputs; the interaction of five binary dimensions plus arbitrary callbacks is only sampled",
 ["output.py"],["Output.apply","Output.__init__","Output.future","contains_unknowns"])
p("C02","Combining outputs never loses secretness, unknownness, dependencies or values",
 "An output built by combining any number of inputs (all, lists, dictionaries, joins of two inputs) is secret if any constituent is secret, known only if every constituent is known, depends on the union of all constituents' resources, and holds every constituent's value at its own position or key. Marking secret or unsecret changes only the secret flag: value, knownness and dependencies are those of the input.",
 ["inputs"],"every list or dictionary of inputs of any length and every pair of inputs, each a prompt value, an awaitable or an output with any flags",
 "tests combine two or three fixed outputs; the guarantee is over any number of inputs and every combination of flags",
 ["output.py"],["Output.all","Output.from_input","Output.secret","Output.unsecret","_map_output","_map2_output","_map_input","_map2_input","_gather_from_dict"])
p("C03","Serialized outputs keep their secret and unknown markers",
 "When an input value is serialized for the engine, an output that is not known becomes the unknown sentinel and never its value, and a known secret output becomes a secret-tagged object around its serialized value whenever the monitor supports secrets; with output values enabled the known value, the secret flag and the sorted dependency URNs are all carried. This holds at every nesting depth of lists, dictionaries, typed argument objects, awaitables and outputs.",
 ["inputs","configurations"],"every input tree of any shape and depth, every monitor feature set, both output-value modes",
 "tests serialize some fixed trees; arbitrary nesting and the cross product of flags and monitor features is not reached",
 ["runtime/rpc.py"],["serialize_property"])
p("C04","Serialization reports every resource dependency of the inputs",
 "Serializing an input value adds to the dependency list every resource that any output inside the value depends on, at any depth, including the identity outputs of resources that are referenced by value, and adds no resource that no output inside the value depends on. For a property bag the dependencies are recorded per property under the translated property name, exactly for the properties that are sent.",
 ["inputs"],"every input tree and every property bag",
 "a dependency dropped in one nesting position reorders deployments only for programs using that shape; tests cover few shapes",
 ["runtime/rpc.py"],["serialize_property","serialize_properties"])
p("C05","Serialization preserves structure and applies name translation consistently",
 "Serializing prompt values is structure preserving: lists keep length and order, dictionaries keep exactly their entries under the translated key, assets, archives and resource references become the signature-tagged object of their kind carrying exactly their own payload, and primitives are unchanged; values the wire cannot carry are rejected with an error rather than altered. In a property bag an entry that serializes to nothing is omitted, every other entry appears under its translated name, and typed argument metadata takes precedence over the given name translator.",
 ["inputs"],"every input tree, every name translator, every typed/untyped combination",
 "tests fix the trees and use one or two translators",
 ["runtime/rpc.py","_types.py"],["serialize_property","serialize_properties"])
p("C06","Deserialization hoists secrets to the top and preserves everything else",
 "Deserializing a property value yields a value marked secret exactly when a secret marker occurs anywhere inside the wire value (other than inside assets, archives, resource references or output values), with all inner markers removed, and every list element and every non-empty dictionary entry otherwise preserved in place. Unknown sentinels become the unknown marker in previews or when unknowns are kept and are dropped otherwise; engine-internal double-underscore keys are dropped unless requested, except the dynamic provider key.",
 ["inputs","configurations"],"every wire value of any shape and depth, preview or update, both keep-unknowns and keep-internal settings",
 "secret leakage depends on the nesting position of the marker; tests sample a few positions",
 ["runtime/rpc.py"],["deserialize_property","deserialize_properties","is_rpc_secret","wrap_rpc_secret","unwrap_rpc_secret"])
p("C07","Output translation keeps secrets wrapped and translates every key",
 "Translating an engine output renames every dictionary key with the given translator at every depth (leaving user-defined dictionaries alone when type metadata drives the translation), keeps list order and length, converts numbers and enums to their declared type, and leaves other primitives unchanged. A secret stays a secret: a wrapped value is translated inside and wrapped again, so no secret marker is ever lost, added or its key renamed.",
 ["inputs"],"every output value tree, every translator, with and without type information",
 "tests use fixed types and fixed trees",
 ["runtime/rpc.py"],["translate_output_properties"])
p("C08","Every resource output is resolved exactly once with the right state",
 "When the registration, read or lookup of a resource completes, every output property of the resource is resolved exactly once: with the engine's value when it returned one, else with the serialized input in updates (and in previews with legacy apply enabled), else with nothing; its secret flag is that of the (unwrapped) value, it is known in every real update and in a preview only if a value is present, and its dependencies are those the engine reported for that property plus the resource itself. When the operation fails, including when the engine's values do not fit the declared types, every output property is resolved exactly once with that failure. The urn and id outputs are not touched by this but resolved exactly once on their own: to the engine's urn and id (the id known exactly if not empty), or with the failure.",
 ["inputs","configurations","fault_sequences"],"every set of output properties, every engine reply and serialized input set, preview/update and legacy-apply configurations, success or failure at any step of the operation",
 "tests resolve one or two fixed property sets; a property left unresolved hangs a program only for particular key combinations or failures",
 ["runtime/rpc.py","runtime/resource.py"],["resolve_outputs","resolve_properties","resolve_outputs_due_to_exception","transfer_properties","resource_output","register_resource","read_resource","get_resource"])
p("C09","Package and module registries select the newest compatible version",
 "Looking up a resource package or module returns one of the registrations for exactly that name whose version is compatible with the request (same major version and at least the requested minor and patch numbers; a missing version is compatible with every version), and no other compatible registration of that name is newer; it returns nothing only when no registration is compatible. Registering a package or module whose version equals, or is wildcard-equal to, an existing registration of the same name fails and leaves the registry unchanged; otherwise it is appended and all other registrations are unchanged.",
 ["histories","inputs"],"every registry content (any number of registrations in any order) and every requested version",
 "tests register three or four fixed versions in fixed orders",
 ["runtime/rpc.py"],["register_resource_package","get_resource_package","register_resource_module","get_resource_module","same_version","check_version"])
p("C10","Merging resource and invoke options is lossless and side-effect free",
 "Merging two option sets yields, for every scalar option, the second set's value when it gives one and otherwise the first's; list-valued options are the first's entries followed by the second's, and dependencies are combined in that order even when supplied as promises or outputs; providers are combined by package with the second winning. Neither input is modified, and merging with nothing or an empty set gives back an equal set.",
 ["inputs"],"every pair of option sets with any combination of present and absent fields",
 "dozens of optional fields; tests check a few combinations",
 ["resource.py","invoke.py"],["ResourceOptions.merge","_merge_lists","_collapse_providers","InvokeOptions.merge"])
p("C11","Alias computation covers every old identity of a resource",
 "The aliases of a resource are exactly its own aliases' URNs, plus, for each alias of its parent, the URN the resource would have had under that parent alias, plus each of its own aliases re-based on each parent alias. An alias URN is built from the alias' own name, type and parent where given and from the resource's otherwise, in the stack and project of that parent or, without a parent, those of the alias or else the current ones; and a child name that starts with its parent's name follows the parent's alias name.",
 ["inputs"],"every list of resource aliases and parent aliases of any length, every name/type/parent combination",
 "no stable test covers alias arithmetic; a missing alias replaces live infrastructure",
 ["resource.py"],["all_aliases","inherited_child_alias","collapse_alias_to_urn","create_urn","inherited_child_alias"])
p("C12","URN handling: parsing and building are inverse",
 "Parsing a URN returns exactly its name, qualified type, package, module and type name components for every well-formed URN, and a URN built from parts parses back to those parts; malformed URNs (those with fewer than three '::'-separated parts) are rejected with an error and never mis-split. A reference to a provider (its URN, '::' and its id) is taken apart into exactly that URN and id, and the provider made for it has that URN, id and the package its type names.",
 ["inputs"],"every string",
 "string splitting depends on where delimiters occur; tests try a few literals",
 ["urn.py","resource.py","runtime/mocks.py"],["_parse_urn","urn_type_and_name","create_urn","MockMonitor.make_urn","_parse_resource_reference","DependencyProviderResource.__init__"])
p("C13","Typed configuration getters agree with the stored string",
 "For every key, a typed configuration getter returns nothing (or the default) exactly when the key is unset, the value parsed as the requested type when it parses, and otherwise fails with a type error naming the key; the require variants fail with a missing-key error exactly when the key is unset. Every secret getter returns an output marked secret holding the same value as its plain counterpart, and every key is looked up under the configured namespace.",
 ["inputs"],"every key, namespace, stored string and default",
 "20 getters by arbitrary stored strings; tests probe a few",
 ["config.py"],["Config"])
p("C14","Configuration lookup precedence and change isolation",
 "A configuration value explicitly set in the process wins over the per-key environment variable, which wins over the aggregated JSON environment variable; a key found nowhere yields nothing. Setting a key changes only that key, and replacing all configuration leaves exactly the new keys.",
 ["inputs","histories"],"every configuration content, environment and key",
 "tests set one or two keys",
 ["runtime/config.py"],["get_config","get_config_env","get_config_env_key","set_config","set_all_config","is_config_secret"])
p("C15","Stack outputs are exported faithfully",
 "Exporting stack outputs keeps every list element, every public dictionary entry and every public attribute of an object or resource in place, and primitive values as they are; outputs stay outputs (secret flag and dependencies intact, holding the export of their value); resources are marked as such in previews only. An object is left out only where it occurs inside itself, where a resource leaves its URN and anything else nothing: objects that are merely referenced several times are exported every time, and cyclic object graphs terminate. The stack's outputs are registered after its program, even if the program fails, and at most one stack is active.",
 ["inputs"],"every output value graph including shared and cyclic references",
 "tests do not cover shared references or deeply nested exports",
 ["runtime/stack.py"],["massage","is_primitive","reference_contains","Stack.__init__"])
p("C16","Component providers reconstruct inputs and options, and report back faithfully",
 "For every construct or call request, each input handed to a component keeps its value, is secret exactly when the wire value was secret, and depends on exactly the resources the request lists for that input (unless it has none of these, already carries output values or is a resource reference, which are passed through as they are). The options carry the request's parent, aliases, dependencies, protection and providers (by URN and id, as the registered provider class if there is one). Project, stack, configuration and mode are those of the request; empty strings and zero values are treated as absent. The response carries the component's URN, its state without identity, and for each property the URNs it depends on. Requests are served one at a time, wait for the registrations they caused, and the lock is given back whatever fails.",
 ["inputs","fault_sequences"],"every request payload, and a failure at any step",
 "tests use a few literal requests",
 ["provider/server.py"],["ProviderServicer.Construct","ProviderServicer.Call","ProviderServicer._construct_inputs","ProviderServicer._call_args","ProviderServicer._select_value","ProviderServicer._construct_options","ProviderServicer._construct_response","ProviderServicer._call_response","_contains_outputs","_is_resource_reference","_create_provider_resource"])
p("C17","Dependency expansion reaches every custom resource behind a component",
 "The dependency set sent to the engine for a set of resources contains the URN of every custom or remote resource in the set and, for local components, of every custom or remote resource reachable through their children without passing through another remote resource, and nothing else.",
 ["inputs","programs"],"every resource tree of any depth and fan-out",
 "tests use one or two levels of nesting",
 ["runtime/resource.py"],["_expand_dependencies","_add_dependency"])
p("C18","Dependency declaration keeps the awaited graph acyclic",
 "Declaring that one resource waits on another succeeds exactly when it does not close a cycle; when it succeeds the edge is recorded and when it fails the graph is unchanged, so the wait-for graph is acyclic after every sequence of declarations.",
 ["histories"],"every sequence of declarations over any number of resources",
 "a missed cycle deadlocks a deployment; tests check two or three shapes",
 ["runtime/resource_cycle_breaker.py"],["declare_dependency","_reachable","_with_memo"])
p("C19","Automation settings and configuration survive unchanged, and secrets stay masked",
 "Stack settings saved in a workspace and loaded again are equal to what was saved, for every combination of fields and configuration values, plain (text, numbers, booleans, nested lists and objects) or encrypted; a plain object whose only key is 'secure' is an encrypted value, and an empty field counts as absent. Configuration values handed to the engine are handed over unchanged, each as a secret exactly if it is one, and those and the stack outputs and update summaries read from the engine have the value and the secret flag the engine reported. The textual form of a secret configuration value or stack output does not depend on the secret.",
 ["inputs"],"every settings content, configuration and set of outputs, and every secret",
 "tests load fixed YAML files",
 ["automation/_stack_settings.py","automation/_config.py","automation/_output.py","automation/_local_workspace.py","automation/_stack.py"],["StackSettings._serialize","StackSettings._deserialize","ConfigValue.__repr__","OutputValue.__repr__","LocalWorkspace.stack_outputs","LocalWorkspace.get_all_config","LocalWorkspace.get_config","LocalWorkspace.set_config","LocalWorkspace.set_all_config","UpdateSummary.__init__","LocalWorkspace.save_stack_settings","LocalWorkspace.stack_settings"])
p("C20","Typed argument objects convert by name without loss",
 "Converting a typed argument object to its wire dictionary yields exactly one entry per set property under its declared wire name, holding that property's value, and the Python-to-wire and wire-to-Python name maps of a type are inverse to each other.",
 ["inputs","programs"],"every declared argument/output type and every assignment of its properties",
 "tests declare a few fixed classes",
 ["_types.py"],["input_type_to_dict","input_type_py_to_pulumi_names","output_type_from_dict","unwrap_type","unwrap_optional_type"])
p("C21","Provider lookup and inheritance prefer the most specific provider",
 "A resource is managed by the most specific provider given for its package: its explicit provider option, else the entry for its package in its providers option, else the one its parent passes on. The providers it passes on to its children contain, per package, its own providers option's entry, else its explicit provider (of whatever package), else the parent's; nothing given by the user is dropped and neither the options nor the parent's providers are changed. (Giving both a provider and a providers entry for the same package is reported by a warning; either may then be passed on.) A custom resource's request refers to its provider, a remote component's to every provider of its options by package (explicit first), by URN and id or the unknown marker; a provider of another package is rejected for custom resources.",
 ["inputs","programs"],"every combination of provider, providers (list or map) and inherited providers",
 "tests cover a few hierarchies",
 ["resource.py","runtime/resource.py"],["Resource._get_providers","Resource.get_provider","Resource.__init__","_collapse_providers","convert_providers","prepare_resource"])
p("C22","A failed RPC is recorded once and reported",
 "Every background operation is added to the set of outstanding operations before it completes. The first operation that fails (and only the first) has its error recorded together with its traceback, later failures never overwrite it; the issuer of an operation gets back its result and no error on success, and no result and that operation's own error on failure.",
 ["histories","fault_sequences"],"every sequence of successful and failing operations",
 "tests exercise a single failure",
 ["runtime/rpc_manager.py"],["RPCManager.do_rpc"])
p("C23","A program run waits for everything it started",
 "A program run ends normally only when no RPC and no task of the program is outstanding, including those started by the completion of others (nested callbacks, registrations started in callbacks); every RPC is waited for, also when the program itself fails; the first failure of an RPC is recorded and makes the run fail, as does the failure of a task that is outstanding when the waiting for tasks begins, and the tasks left over are cancelled after a failure, and only then; where only RPCs are waited for (a provider serving requests), other tasks are left alone. An RPC is counted as outstanding before it starts. Waiting synchronously for a value yields that value or failure and loses nothing that was scheduled.",
 ["schedules","programs"],"every interleaving of RPCs and tasks at the points where the program waits",
 "depends on event-loop interleavings which tests do not enumerate",
 ["runtime/stack.py","runtime/rpc_manager.py","runtime/sync_await.py"],["wait_for_rpcs","run_pulumi_func","RPCManager.do_rpc","_sync_await"])
p("C24","Dynamic providers survive serialization",
 "A dynamic resource is registered under its dynamic type, name and options with exactly the properties given and its serialized provider; the caller's properties stay as they are (and may not hold the reserved property). What the provider process loads from it behaves as the original provider object. The same provider serializes to the same text in every run, in whichever order its dictionaries were filled. Any number of providers can be serialized, and serializing, whether it succeeds or fails, leaves the process's other pickling as it was.",
 ["programs","histories"],"all user-defined dynamic providers with picklable state and any number of them",
 "depends on code pickling across processes; tests serialize one provider",
 ["dynamic/dynamic.py","dynamic/__main__.py"],["serialize_provider","Resource.__init__","get_provider"])
p("C25","A request to the engine carries everything the resource was given",
 "The request that registers or reads a resource carries its type, name, kind, parent (the given one, else the root resource, except for the stack), inputs, id (for reads), the URNs of its explicit dependencies and of every dependency of each property, per property and in total, its provider references, all its aliases, and every option (protect, delete before replace and whether it was given, ignore changes, replace on changes, additional secret outputs, version, plugin download URL, import id, retain on delete, custom timeouts) as given, with property names translated as those of the inputs, or the protocol's default where nothing was given. Outputs of a component are reported under its URN. Nothing else is sent.",
 ["inputs","programs"],"every combination of options, inputs and dependencies",
 "tests check a few options at a time",
 ["runtime/resource.py"],["prepare_resource","register_resource","read_resource","register_resource_outputs","_translate_ignore_changes","_translate_additional_secret_outputs","_translate_replace_on_changes"])
p("C26","Automation operations hand every option to the engine and clean up",
 "An automation operation (up, preview, refresh, destroy) runs one CLI command for its stack, in the workspace's directory and with its environment (the workspace's variables taking precedence), whose command line carries exactly the options given (a false, empty or absent one counts as not given), lists element by element in order, numbers as text; an inline program is served while the command runs; events are reported in order, once. Whether the command succeeds or fails, the program's server is stopped, its settings are reset, the event watcher is waited for and the log removed. A failing command makes the operation fail; its result is otherwise the command's output, the summary of the latest update, the outputs or planned changes, as reported by the engine; its history is every update, also one that has not ended. A stack is created, selected, or selected exactly if it exists already, as asked.",
 ["inputs","fault_sequences"],"every combination of options, program and event callbacks, succeeding and failing commands",
 "tests need a CLI and run a few options",
 ["automation/_stack.py","automation/_local_workspace.py","automation/_cmd.py"],["Stack.up","Stack.preview","Stack.refresh","Stack.destroy","_parse_extra_args","Stack._run_pulumi_cmd_sync","LocalWorkspace._run_pulumi_cmd_sync","Stack.history","Stack.info","Stack.__init__","_cleanup","_run_pulumi_cmd","_watch_logs"])
p("C27","Invokes and calls carry their arguments to the engine and yield its answer",
 "Invoking a provider function sends one request with the function, the arguments, the provider reference (the provider given in the options, else the one the options' parent passes on for that function's package, else none), version and plugin download URL, and leaves the options as they were; it returns the properties the engine returned (converted to the result type if one is given), nothing if there are none, and raises if the engine fails or reports failures, which the program may handle. Calling a method sends one request with the method, the arguments (their output values kept) and, per argument, exactly the URNs it depends on, and with the provider, version and URL of the resource; its output settles exactly once: with the properties returned (secret markers removed), known exactly if they contain no unknowns, secret exactly if one of them is, depending on exactly the returned dependencies; a failure of any step settles it with that failure, which is reported. A result type that is no output type is rejected before anything is sent.",
 ["inputs","fault_sequences"],"every combination of arguments, options, answers and failures",
 "tests run a few invokes against mocks",
 ["runtime/invoke.py"],["invoke","call","InvokeResult"])
p("C28","Stack references give another stack's outputs, keeping secrets secret",
 "An output of a referenced stack (get_output, require_output) has the value of that name in the stack's outputs; where there is none, get_output gives nothing and require_output fails with a missing-key error. It is known exactly if the name and the outputs are, secret if the engine's list of secret outputs has the name (where that list or the name is not known, or there is no list: exactly if the outputs are secret), and depends on what the reference and the name depend on. A stack reference is read from the engine under the other stack's name (the given one, else the reference's own name), and the options given are left unchanged.",
 ["inputs"],"every combination of outputs, secret names, names and reference names",
 "tests read a few outputs of mocked stacks",
 ["stack_reference.py"],["StackReference.__init__","StackReference.get_output","StackReference.require_output","StackReference.translate_output_property","StackReference.__is_secret_name"])
p("C29","Resources are transformed, validated and registered as asked",
 "Creating a resource applies its own transformations in order, then those of its parent (or of the root stack where it has none); each one sees the type, name, inputs and options left by the one before, returning nothing leaves them, and moving the resource to another parent is rejected. The resource is registered (or read, if it has an id) once with what the last one left, under the type and name given, and passes all the transformations on to its children; the inputs and options given by the caller are unchanged. A missing type or name, or a type, name, options or parent of the wrong kind, is rejected with a type error and nothing is registered. Inputs given as a typed object are its attributes. Stack transformations are appended to the root stack's, and need one.",
 ["inputs","programs"],"every combination of type, name, inputs, options and transformations",
 "tests run a few transformations in a few hierarchies",
 ["resource.py","runtime/stack.py"],["Resource.__init__","register_stack_transformation"])
p("C30","With mocks, programs see exactly what their mocks answer",
 "With mocks set, every function call and every resource other than the stack asks the mocks once, with the function or type and name, the inputs, the provider and the given id that the program's request carries, and the program gets what they answer: the result and the reported failures of a call, or the id and state of a resource, under the URN of its stack, project, type (below its parent's type) and name. A resource reference resolves to the latest answer registered under its URN, and fails for others; a mock that raises registers nothing. Mocks see no outputs among their inputs. Messages are logged with their severity. Setting mocks sets project, stack and preview, and makes a root stack where there is none; a function decorated as a test waits for its result and everything it started, fails exactly if something of it fails, and leaves no operations or failures behind for the next.",
 ["inputs","histories","programs"],"every request and answer of mocks, every history of registrations, every outcome of a test function",
 "tests run a few programs with mocks that succeed",
 ["runtime/mocks.py"],["MockMonitor","MockEngine","set_mocks","test"])
p("C31","Engine requests reach dynamic providers, and their answers reach the engine",
 "The provider process relays each request (check, diff, create, read, update, delete) once to the dynamic provider the resource's properties carry (to that of the old state where the new one is not known yet), with the request's id and properties (unknown ones of checks and diffs kept as unknown), and sends what it answers to the engine: the inputs and every failure of a check; whether there are changes (yes, no, not known), the replaced and stable properties and whether to delete first of a diff; the id and the state, or no state, of the others. The state sent always carries the serialized provider of the request. A provider that raises makes the request fail. Requests a dynamic provider cannot serve are refused as unimplemented, and secrets are not accepted.",
 ["inputs","fault_sequences"],"every request and every answer or failure of a provider",
 "tests cover one provider run with mocks, never the provider process",
 ["dynamic/__main__.py","dynamic/dynamic.py"],["DynamicResourceProviderServicer","ResourceProvider"])
p("C32","Messages are logged once, under their severity, stream and resource",
 "With an engine, each message logged (debug, info, warn, error) is sent to it exactly once, unchanged, under its severity, with the stream id given (0 if none), marked ephemeral exactly if asked, and for the URN of the resource given, or at once and for none. Without an engine, messages other than debug ones are written to the standard error stream with their severity.",
 ["inputs","schedules"],"every message, severity, resource, stream and flag; URNs that come late",
 "tests hardly log anything",
 ["log.py"],["debug","info","warn","error","_log"])
p("C33","An inline program runs as its request asks, and its outcome is the response",
 "A program served inline runs once per request, after the process is configured with the request's project, stack, organization, monitor, engine, parallelism, mode, configuration and secret keys. The response has no error if it succeeds (or if the monitor is gone); otherwise the error is logged once and is the response's error: the program's own message for a RunError, the details of a failed RPC, and message and traceback of any other exception. However it ends, the tasks it left are cancelled, its event loop is closed and its outstanding operations are forgotten, so that the next request starts clean; when the server ends, the settings are those of no program.",
 ["inputs","fault_sequences","histories"],"every request, every way a program can end, several runs in one process",
 "tests of inline programs need the CLI and do not run here",
 ["automation/_server.py"],["LanguageServer.Run","LanguageServer.on_pulumi_exit"])
p("C34","Engine events reach callbacks with everything the engine reports",
 "Every event of an update the engine reports (messages, diagnostics, policy violations, the prelude, the summary, the start, outputs and failure of a resource's step, and the end) becomes exactly one event object with its sequence number and timestamp, that says what happened and nothing else. Each of its fields, in the names and types of the engine's event format (sdk/go/common/apitype/events.go), is the one reported, and a field that is not reported is absent: including a diagnostic's stream, a policy violation's resource, and of a step its operation, its states before and after, and its detailed differences, path by path, each with its kind and whether it is a difference of inputs.",
 ["inputs"],"every event of the engine's format, with every combination of optional fields",
 "tests of events need the CLI, and look at two fields",
 ["automation/events.py"],["EngineEvent.from_json","StdoutEngineEvent.from_json","DiagnosticEvent.from_json","PolicyEvent.from_json","PreludeEvent.from_json","SummaryEvent.from_json","PropertyDiff.from_json","StepEventMetadata.from_json","StepEventStateMetadata.from_json","ResourcePreEvent.from_json","ResOutputsEvent.from_json","ResOpFailedEvent.from_json"])
p("C35","Workspaces report what the engine reports, and change what they are asked to",
 "A local workspace lists every stack and every plugin in order, with the fields the engine reports (a field that is not reported is absent), finds the selected stack, and reports the user. A stack's state is exported as reported, and imported unchanged through a file that is gone afterwards, even if the import fails. Installing and removing plugins, removing and refreshing configuration run one command about exactly what was asked. A new workspace has the options given, a directory of its own if none is given, the settings given (saved in it), and a CLI of the same major version that is not too old, unless told not to check. A stack made for a program has a workspace with that program and the caller's project, or the one in the caller's directory, or a default one of the given name; one made for a directory works there; the caller's options stay as they were, and can be used again. Project settings saved in a workspace load with the same content (nested settings as plain objects).",
 ["inputs","histories","fault_sequences"],"every report, option and argument; several stacks with the same options; failing commands",
 "tests of workspaces need the CLI and do not run here",
 ["automation/_local_workspace.py","automation/_workspace.py","automation/_project_settings.py"],["LocalWorkspace.list_stacks","LocalWorkspace.list_plugins","LocalWorkspace.stack","LocalWorkspace.who_am_i","LocalWorkspace.import_stack","LocalWorkspace.export_stack","LocalWorkspace.install_plugin","LocalWorkspace.remove_plugin","LocalWorkspace.remove_all_config","LocalWorkspace.refresh_config","LocalWorkspace.save_project_settings","LocalWorkspace.project_settings","LocalWorkspace.__init__","_inline_source_stack_helper","_local_source_stack_helper","_parse_and_validate_pulumi_version","get_stack_settings_name"])
p("C36","Programs see the settings, engine features, errors and assets they were given",
 "Every question a program asks about its run (project, stack, organization, preview, legacy behaviour, resource monitor, engine, root resource) is answered by the settings in force, which are exactly those asked for: addresses are connected to, clients used as they are, the legacy behaviour taken from the environment only if not said, and an unknown organization is an error. Only settings can be put in force; a new run starts with no root resource and no assumed features. Programs running concurrently, each in its own context, see only their own settings, root resource, features and configuration. Whether the engine supports a feature is asked of it once per feature: its answer is what the program sees from then on, an engine that does not know the question supports nothing, and any other failure is raised and not remembered; without an engine nothing is supported. An engine's error reaches the program with its own details, and an engine that has gone away as the end of the run. Assets and archives hold exactly the text, path, address or named members given, and anything else is refused.",
 ["inputs","histories","schedules","fault_sequences"],"every setting, feature, answer and failure of the engine; programs in concurrent contexts; every value given to an asset or archive",
 "tests set a few settings, and never let the engine fail",
 ["runtime/settings.py","runtime/config.py","_utils.py","asset.py","metadata.py"],["Settings.__init__","configure","is_dry_run","is_legacy_apply_enabled","get_organization","get_project","get_stack","get_monitor","get_engine","monitor_supports_feature","grpc_error_to_exception","handle_grpc_error","reset_options","ContextProperty","StringAsset.__init__","FileAsset.__init__","RemoteAsset.__init__","AssetArchive.__init__","FileArchive.__init__","RemoteArchive.__init__"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))