From 11073b186d872fd22b4d82b90eadb0730cccd902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:54 +0000
Subject: [PATCH 01/33] fix: _map2_output loses the first output's secret and
 known flags

The flags were combined as futures (which are always truthy), so only the
second output's flags reached the joined output.
---
 sdk/python/lib/pulumi/output.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/output.py b/sdk/python/lib/pulumi/output.py
index 1dd6f47..1a0964e 100644
--- a/sdk/python/lib/pulumi/output.py
+++ b/sdk/python/lib/pulumi/output.py
@@ -570,11 +570,21 @@ def _map2_output(
         r2 = await o2.resources()
         return r1 | r2
 
+    async def is_known() -> bool:
+        known1 = await o1.is_known()
+        known2 = await o2.is_known()
+        return known1 and known2
+
+    async def is_secret() -> bool:
+        secret1 = await o1.is_secret()
+        secret2 = await o2.is_secret()
+        return secret1 or secret2
+
     return Output(
         resources=asyncio.ensure_future(res()),
         future=asyncio.ensure_future(fut()),
-        is_known=o1.is_known() and o2.is_known(),
-        is_secret=o2.is_secret() or o2.is_secret(),
+        is_known=asyncio.ensure_future(is_known()),
+        is_secret=asyncio.ensure_future(is_secret()),
     )
 
 
-- 
2.43.0


From bddbbb6ea3a3787af7cb15d46f666f13a94cfeb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 02/33] fix: chained merging of options drops the intermediate
 options

The merged copy kept the `merge` method bound to the first options object,
so a.merge(b).merge(c) silently ignored b.
---
 sdk/python/lib/pulumi/invoke.py   | 2 ++
 sdk/python/lib/pulumi/resource.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 625271b..0fef15f 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -115,6 +115,8 @@ class InvokeOptions:
             raise TypeError("Expected opts2 to be a InvokeOptions instance")
 
         dest = copy.copy(opts1)
+        # The instance-level `merge` must merge onto the new options, not onto `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
         source = opts2
 
         dest.parent = dest.parent if source.parent is None else source.parent
diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 33f7923..0548fe5 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -643,6 +643,8 @@ class ResourceOptions:
             raise TypeError("Expected opts2 to be a ResourceOptions instance")
 
         dest = copy.copy(opts1)
+        # The instance-level `merge` must merge onto the new options, not onto `opts1`.
+        dest.merge = dest._merge_instance  # type: ignore
         source = copy.copy(opts2)
 
         # This makes merging simple.
-- 
2.43.0


From c4682d9a7b3ed21b8952ac287240e5be7e9dd4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 03/33] fix: merging default invoke options erases the version

InvokeOptions defaults its version to the empty string, which replaced a
version given by the first options.
---
 sdk/python/lib/pulumi/invoke.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/invoke.py b/sdk/python/lib/pulumi/invoke.py
index 0fef15f..45bf7e9 100644
--- a/sdk/python/lib/pulumi/invoke.py
+++ b/sdk/python/lib/pulumi/invoke.py
@@ -126,6 +126,7 @@ class InvokeOptions:
             if source.plugin_download_url is None
             else source.plugin_download_url
         )
-        dest.version = dest.version if source.version is None else source.version
+        # An empty version is the default and means that no version was given.
+        dest.version = source.version if source.version else dest.version
 
         return dest
-- 
2.43.0


From 33835725d273538096f52e830118dcb7e29e481c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 04/33] fix: merging resource options drops providers given as
 a tuple

_collapse_providers ignored any sequence but a list (and failed on a mapping),
and lists could not be merged with other sequences.
---
 sdk/python/lib/pulumi/resource.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 0548fe5..12217fd 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -656,7 +656,7 @@ class ResourceOptions:
                         warnings.warn(message, UserWarning)
                         log.warn(message)
                 return list(providers.values())
-            return providers
+            return None if providers is None else list(providers)
 
         dest_providers = expand_providers(dest.providers)
         source_providers = expand_providers(source.providers)
@@ -728,12 +728,12 @@ def _collapse_providers(opts: "ResourceOptions"):
             opts.providers = None
         else:
             opts.providers = {}
-            if isinstance(providers, list):
+            if isinstance(providers, Mapping):
+                for key, prov in providers.items():
+                    opts.providers[key] = prov
+            else:
                 for prov in providers:
                     opts.providers[prov.package] = prov
-            elif isinstance(providers, dict):
-                for key, prov in providers:
-                    opts.providers[key] = prov
 
 
 def _merge_lists(dest, source):
-- 
2.43.0


From 26520ae2be9ce89b22d5eb1ec1a1f58b6be79a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:02 +0000
Subject: [PATCH 05/33] fix: merging options fails when sequences are of
 different types

Aliases may be given as any sequence; adding a tuple to a list raised.
---
 sdk/python/lib/pulumi/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 12217fd..7a29ab9 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -743,7 +743,7 @@ def _merge_lists(dest, source):
     if source is None:
         return dest
 
-    return dest + source
+    return [*dest, *source]
 
 
 # !!! IMPORTANT !!! If you add a new attribute to this type, make sure to verify that ResourceOptions.merge
-- 
2.43.0


From ebf2698dd56d3364febdc465f09afe0d5b86e9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:57 +0000
Subject: [PATCH 06/33] fix: unknowns inside secrets and output values are
 dropped although unknowns are kept

deserialize_property ignores keep_unknowns below a secret or an output value, so an unknown wrapped in a secret
turned into a secret None.
---
 sdk/python/lib/pulumi/runtime/rpc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index c59a639..85b92ab 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -538,11 +538,13 @@ def deserialize_properties(
                 "Invalid archive encountered when unmarshalling resource property"
             )
         if props_struct[_special_sig_key] == _special_secret_sig:
-            return wrap_rpc_secret(deserialize_property(props_struct["value"]))
+            return wrap_rpc_secret(
+                deserialize_property(props_struct["value"], keep_unknowns)
+            )
         if props_struct[_special_sig_key] == _special_resource_sig:
             return deserialize_resource(props_struct, keep_unknowns)
         if props_struct[_special_sig_key] == _special_output_value_sig:
-            return deserialize_output_value(props_struct)
+            return deserialize_output_value(props_struct, keep_unknowns)
         raise AssertionError(
             "Unrecognized signature when unmarshalling resource property"
         )
@@ -601,14 +603,16 @@ def deserialize_resource(
     return urn
 
 
-def deserialize_output_value(ref_struct: struct_pb2.Struct) -> "Output[Any]":
+def deserialize_output_value(
+    ref_struct: struct_pb2.Struct, keep_unknowns: Optional[bool] = None
+) -> "Output[Any]":
     is_known = "value" in ref_struct
     is_known_future: "asyncio.Future" = asyncio.Future()
     is_known_future.set_result(is_known)
 
     value = None
     if is_known:
-        value = deserialize_property(ref_struct["value"])
+        value = deserialize_property(ref_struct["value"], keep_unknowns)
     value_future: "asyncio.Future" = asyncio.Future()
     value_future.set_result(value)
 
-- 
2.43.0


From 83d046e3996bc230d1cbe18d5a994a2514525778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:22 +0000
Subject: [PATCH 07/33] fix: serializing an output adds resources to the
 output's own dependencies

---
 sdk/python/lib/pulumi/runtime/rpc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/rpc.py b/sdk/python/lib/pulumi/runtime/rpc.py
index 85b92ab..535c39b 100644
--- a/sdk/python/lib/pulumi/runtime/rpc.py
+++ b/sdk/python/lib/pulumi/runtime/rpc.py
@@ -365,7 +365,8 @@ async def serialize_property(
 
     if known_types.is_output(value):
         output = cast("Output", value)
-        value_resources: Set["Resource"] = await output.resources()
+        # Copy the set, which belongs to the output and may be shared with other outputs.
+        value_resources: Set["Resource"] = set(await output.resources())
         deps.extend(value_resources)
 
         # When serializing an Output, we will either serialize it as its resolved value or the
-- 
2.43.0


From 54669f3f6166824bac4b5fb11ed0bf3a52b91d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:01 +0000
Subject: [PATCH 08/33] fix: parsing a URN cuts off resource names at '::'

---
 sdk/python/lib/pulumi/resource.py | 2 +-
 sdk/python/lib/pulumi/urn.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 7a29ab9..e7e5458 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -110,7 +110,7 @@ def inherited_child_alias(
 
 # Extract the type and name parts of a URN
 def urn_type_and_name(urn: str) -> Tuple[str, str]:
-    parts = urn.split("::")
+    parts = urn.split("::", 3)
     type_parts = parts[2].split("$")
     return (parts[3], type_parts[-1])
 
diff --git a/sdk/python/lib/pulumi/urn.py b/sdk/python/lib/pulumi/urn.py
index 1ff912c..ac85dec 100644
--- a/sdk/python/lib/pulumi/urn.py
+++ b/sdk/python/lib/pulumi/urn.py
@@ -22,7 +22,7 @@ _UrnParts = namedtuple(
 
 def _parse_urn(urn: str) -> _UrnParts:
     try:
-        urn_parts = urn.split("::")
+        urn_parts = urn.split("::", 3)
         urn_name = urn_parts[3] if len(urn_parts) >= 4 else ""
         qualified_type = urn_parts[2]
         typ = qualified_type.split("$")[-1]
-- 
2.43.0


From dfa4b42359e02e0e21edfc2409c61fd9207c8d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 09/33] fix: aliases fail when their stack or project is an
 output

---
 sdk/python/lib/pulumi/resource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index e7e5458..508be41 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1263,7 +1263,7 @@ def create_urn(
         if project is None:
             project = get_project()
 
-        parent_prefix = Output.from_input("urn:pulumi:" + stack + "::" + project + "::")
+        parent_prefix = Output.concat("urn:pulumi:", stack, "::", project, "::")
 
     all_args = [parent_prefix, type_, name]
     # invariant http://mypy.readthedocs.io/en/latest/common_issues.html#variance
-- 
2.43.0


From 72c079694e433a13d2821b6806cc615ee8c2b075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:00 +0000
Subject: [PATCH 10/33] fix: URNs of children of the root stack are computed
 with the stack's type as parent type

---
 sdk/python/lib/pulumi/resource.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 508be41..0f57a16 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -1255,7 +1255,14 @@ def create_urn(
         else:
             parent_urn = Output.from_input(parent)
 
-        parent_prefix = parent_urn.apply(lambda u: u[0 : u.rfind("::")] + "$")
+        def prefix_of(u: str) -> str:
+            prefix = u[0 : u.rfind("::")]
+            # The type of the root stack is no part of the types of its children.
+            if prefix.endswith("::pulumi:pulumi:Stack"):
+                return prefix[0 : prefix.rfind("::")] + "::"
+            return prefix + "$"
+
+        parent_prefix = parent_urn.apply(prefix_of)
     else:
         if stack is None:
             stack = get_stack()
-- 
2.43.0


From 12ecaee464a2281242a1c97eb0109329ed7dfaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:34 +0000
Subject: [PATCH 11/33] fix: outputs of read resources never resolve when the
 engine's values do not fit

Whoever waits for them waits forever, so the program hangs instead of failing.
---
 sdk/python/lib/pulumi/runtime/resource.py | 44 ++++++++++++++---------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b2025eb..b656edf 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -284,14 +284,20 @@ def get_resource(
             is_known = bool(resp["id"])
             resolve_id(resp["id"], is_known, False, None)
 
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp["state"],
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp["state"],
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            # As in `register_resource`: whoever waits for the outputs must see the failure.
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("get resource", do_get)())
 
@@ -454,14 +460,20 @@ def read_resource(
         log.debug(f"resource read successful: ty={ty}, urn={resp.urn}")
         resolve_urn(resp.urn, True, False, None)
         resolve_id(resolved_id, True, False, None)  # Read IDs are always known.
-        rpc.resolve_outputs(
-            res,
-            resolver.serialized_props,
-            resp.properties,
-            {},
-            resolvers,
-            transform_using_type_metadata,
-        )
+        try:
+            rpc.resolve_outputs(
+                res,
+                resolver.serialized_props,
+                resp.properties,
+                {},
+                resolvers,
+                transform_using_type_metadata,
+            )
+        except Exception as exn:
+            # As in `register_resource`: whoever waits for the outputs must see the failure.
+            log.debug(f"exception after executing rpc: {traceback.format_exc()}")
+            rpc.resolve_outputs_due_to_exception(resolvers, exn)
+            raise
 
     asyncio.ensure_future(RPC_MANAGER.do_rpc("read resource", do_read)())
 
-- 
2.43.0


From 989fd91cf22344fa2aef47dde0b999616c996ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:31 +0000
Subject: [PATCH 12/33] fix: a component's explicit provider for another
 package is not passed on to its children

---
 sdk/python/lib/pulumi/resource.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 0f57a16..32ed36c 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -985,14 +985,16 @@ class Resource:
 
         provider = opts.provider or ambient_provider or parent_provider
 
-        if pkg and opts.provider:
-            if pkg in opts_providers:
-                message = f"There is a conflict between the `provider` field ({pkg}) and a member of the `providers` map"
+        if opts.provider:
+            # A component may be given a provider for another package than its own.
+            provider_pkg = opts.provider.package
+            if provider_pkg in opts_providers:
+                message = f"There is a conflict between the `provider` field ({provider_pkg}) and a member of the `providers` map"
                 depreciation = "This will become an error by the end of July 2022. See https://github.com/pulumi/pulumi/issues/8799 for more details"
                 warnings.warn(f"{message} for resource {t}. " + depreciation)
                 log.warn(f"{message}. {depreciation}", resource=self)
             else:
-                opts_providers[pkg] = opts.provider
+                opts_providers[provider_pkg] = opts.provider
 
         # opts_providers takes priority over self._providers
         providers = {**self._providers, **opts_providers}
-- 
2.43.0


From 144a9799e839ed8ab2a64d6fa5af90a23073d8fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 13/33] fix: remote components drop the providers option when a
 provider is given or inferred

---
 sdk/python/lib/pulumi/runtime/resource.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/resource.py b/sdk/python/lib/pulumi/runtime/resource.py
index b656edf..095fbf0 100644
--- a/sdk/python/lib/pulumi/runtime/resource.py
+++ b/sdk/python/lib/pulumi/runtime/resource.py
@@ -760,18 +760,16 @@ def convert_providers(
     """
     Merge all providers opts (opts.provider and both list and dict forms of opts.providers) into a single dict.
     """
-    if provider is not None:
-        return convert_providers(None, [provider])
-
-    if providers is None:
-        return {}
-
+    result: Dict[str, "ProviderResource"] = {}
     if isinstance(providers, Mapping):
-        return providers
+        result.update(providers)
+    elif providers is not None:
+        for p in providers:
+            result[p.package] = p
 
-    result = {}
-    for p in providers:
-        result[p.package] = p
+    # The explicit provider is the most specific one for its package.
+    if provider is not None:
+        result[provider.package] = provider
 
     return result
 
-- 
2.43.0


From 28ab315dba90befc1da176e3052c49db2e056106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 14/33] fix: components constructed by a provider lose their
 parent

---
 sdk/python/lib/pulumi/provider/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/provider/server.py b/sdk/python/lib/pulumi/provider/server.py
index 17315da..3f18882 100644
--- a/sdk/python/lib/pulumi/provider/server.py
+++ b/sdk/python/lib/pulumi/provider/server.py
@@ -162,7 +162,7 @@ class ProviderServicer(ResourceProviderServicer):
     @staticmethod
     def _construct_options(request: proto.ConstructRequest) -> pulumi.ResourceOptions:
         parent = None
-        if not _empty_as_none(request.parent):
+        if _empty_as_none(request.parent) is not None:
             parent = DependencyResource(request.parent)
         return pulumi.ResourceOptions(
             aliases=list(request.aliases),
-- 
2.43.0


From 34eafe2e37a2c1b0dcc94c98b579039394435179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:58 +0000
Subject: [PATCH 15/33] fix: objects referenced more than once are exported as
 nothing

---
 sdk/python/lib/pulumi/runtime/stack.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index b789241..e6f087d 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -185,7 +185,9 @@ def massage(attr: Any, seen: List[Any]):
         # otherwise just emit as nothing to stop the looping.
         return None
 
-    seen.append(attr)
+    # Only the objects on the way to this one may not be emitted again: an object that is merely referenced several
+    # times is emitted every time.
+    seen = seen + [attr]
 
     # first check if the value is an actual dictionary.  If so, massage the values of it to deeply
     # make sure this is a popo.
-- 
2.43.0


From 057464473e62d70a855e86cb612a3a37a22bddf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 16/33] fix: registrations started by nested callbacks are lost
 at the end of the program

---
 sdk/python/lib/pulumi/runtime/stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/stack.py b/sdk/python/lib/pulumi/runtime/stack.py
index e6f087d..bb04936 100644
--- a/sdk/python/lib/pulumi/runtime/stack.py
+++ b/sdk/python/lib/pulumi/runtime/stack.py
@@ -111,9 +111,11 @@ async def wait_for_rpcs(await_all_outstanding_tasks=True) -> None:
 
                 log.debug("All outstanding tasks completed.")
 
-        # Check to see if any more RPCs have been scheduled, and repeat the cycle if so.
-        # Break if no RPCs remain.
-        if len(RPC_MANAGER.rpcs) == 0:
+        # Check to see if any more RPCs or tasks have been scheduled, and repeat the cycle if so.
+        # Break if no RPCs (and, when awaiting all outstanding tasks, no tasks) remain.
+        if len(RPC_MANAGER.rpcs) == 0 and not (
+            await_all_outstanding_tasks and len(_get_running_tasks()) > 0
+        ):
             break
 
 
-- 
2.43.0


From a35e7ed950aa6b08c53dcbd6f9caf516eafd23c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 17/33] fix: the log_verbosity option makes automation
 operations fail

---
 sdk/python/lib/pulumi/automation/_stack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 01816aa..e2c5c6a 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -771,7 +771,7 @@ def _parse_extra_args(**kwargs) -> List[str]:
     if log_flow:
         extra_args.extend(["--logflow"])
     if log_verbosity:
-        extra_args.extend(["--verbose", log_verbosity])
+        extra_args.extend(["--verbose", str(log_verbosity)])
     if log_to_std_err:
         extra_args.extend(["--logtostderr"])
     if tracing:
-- 
2.43.0


From 5803f76953e4c196fa604795a379c5157a3d0ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 18/33] fix: stack settings lose configuration values that are
 not text

---
 sdk/python/lib/pulumi/automation/_stack_settings.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack_settings.py b/sdk/python/lib/pulumi/automation/_stack_settings.py
index 6b467fa..7f11e4c 100644
--- a/sdk/python/lib/pulumi/automation/_stack_settings.py
+++ b/sdk/python/lib/pulumi/automation/_stack_settings.py
@@ -50,10 +50,10 @@ class StackSettings:
         if config is not None:
             stack_config: Dict[str, Any] = {}
             for key, val in config.items():
-                if isinstance(val, str):
-                    stack_config[key] = val
-                elif "secure" in val:
+                if isinstance(val, dict) and len(val) == 1 and "secure" in val:
                     stack_config[key] = StackSettingsSecureConfigValue(**val)
+                else:
+                    stack_config[key] = val
             config = stack_config
         return cls(
             secrets_provider=data.get("secretsprovider"),
-- 
2.43.0


From cc9c97710e3c1c9f72f48551c580755822bb971a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:41 +0000
Subject: [PATCH 19/33] fix: invoking a function changes the options the caller
 passed in

---
 sdk/python/lib/pulumi/runtime/invoke.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/sdk/python/lib/pulumi/runtime/invoke.py b/sdk/python/lib/pulumi/runtime/invoke.py
index de852e4..b70932d 100644
--- a/sdk/python/lib/pulumi/runtime/invoke.py
+++ b/sdk/python/lib/pulumi/runtime/invoke.py
@@ -70,14 +70,15 @@ def invoke(
 
     async def do_invoke():
         # If a parent was provided, but no provider was provided, use the parent's provider if one was specified.
-        if opts.parent is not None and opts.provider is None:
-            opts.provider = opts.parent.get_provider(tok)
+        provider = opts.provider
+        if opts.parent is not None and provider is None:
+            provider = opts.parent.get_provider(tok)
 
         # Construct a provider reference from the given provider, if one was provided to us.
         provider_ref = None
-        if opts.provider is not None:
-            provider_urn = await opts.provider.urn.future()
-            provider_id = (await opts.provider.id.future()) or rpc.UNKNOWN
+        if provider is not None:
+            provider_urn = await provider.urn.future()
+            provider_id = (await provider.id.future()) or rpc.UNKNOWN
             provider_ref = f"{provider_urn}::{provider_id}"
             log.debug(f"Invoke using provider {provider_ref}")
 
-- 
2.43.0


From 09a62466377b765c40e207f849343bb9ab5fcf8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:49 +0000
Subject: [PATCH 20/33] fix: mocked calls that report no failures fail

---
 sdk/python/lib/pulumi/runtime/mocks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/runtime/mocks.py b/sdk/python/lib/pulumi/runtime/mocks.py
index 6615c38..97ec2ce 100644
--- a/sdk/python/lib/pulumi/runtime/mocks.py
+++ b/sdk/python/lib/pulumi/runtime/mocks.py
@@ -192,7 +192,7 @@ class MockMonitor:
         else:
             (ret, failures) = tup[0], [
                 provider_pb2.CheckFailure(property=failure[0], reason=failure[1])
-                for failure in tup[1]
+                for failure in tup[1] or []
             ]
 
         ret_proto = _sync_await(rpc.serialize_properties(ret, {}))
-- 
2.43.0


From 2b7c77d65c3676e32b484ce59d8814949488a3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:44 +0000
Subject: [PATCH 21/33] fix: resources cannot have a parent that is only known
 by its URN

---
 sdk/python/lib/pulumi/resource.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sdk/python/lib/pulumi/resource.py b/sdk/python/lib/pulumi/resource.py
index 32ed36c..365451b 100644
--- a/sdk/python/lib/pulumi/resource.py
+++ b/sdk/python/lib/pulumi/resource.py
@@ -825,6 +825,10 @@ class Resource:
         if dependency:
             self._protect = False
             self._providers = {}
+            self._transformations = []
+            self._aliases = []
+            self._childResources = set()
+            self._name = name
             return
 
         if props is None:
-- 
2.43.0


From fe2a3228512f2c36b060b597c3fb0a3b15c24cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 22/33] fix: serializing a few hundred dynamic providers
 exceeds the recursion limit

serialize_provider patched the pure Python pickler on every call and never
restored it, so that each call added another level of wrapping.
---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index b4374eb..0c40b6d 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -227,6 +227,8 @@ def serialize_provider(provider: ResourceProvider) -> str:
 
     pickle.Pickler._batch_setitems = batch_set_items_sorted
 
+    unsorted_save_dict = pickle.Pickler.save_dict
+
     def save_dict_sorted(self, obj):
         if self.bin:
             self.write(pickle.EMPTY_DICT)
@@ -243,7 +245,9 @@ def serialize_provider(provider: ResourceProvider) -> str:
         byts = dill.dumps(provider, protocol=pickle.DEFAULT_PROTOCOL, recurse=True)
         return base64.b64encode(byts).decode("utf-8")
     finally:
-        # Restore the original pickler
+        # Restore the original pickler and its methods
+        pickle.Pickler._batch_setitems = unsorted_batch_setitems
+        pickle.Pickler.save_dict = unsorted_save_dict
         pickle.Pickler = old_pickler
 
 
-- 
2.43.0


From dde334dacb28c684819ae37c9e58c2a935b8edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 23/33] fix: properties cannot be shared between dynamic
 resources

The provider was added to the caller's dictionary, so that the second resource
made from the same properties failed.
---
 sdk/python/lib/pulumi/dynamic/dynamic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/dynamic.py b/sdk/python/lib/pulumi/dynamic/dynamic.py
index 0c40b6d..17f3bc8 100644
--- a/sdk/python/lib/pulumi/dynamic/dynamic.py
+++ b/sdk/python/lib/pulumi/dynamic/dynamic.py
@@ -281,7 +281,8 @@ class Resource(CustomResource):
         if PROVIDER_KEY in props:
             raise Exception("A dynamic resource must not define the __provider key")
 
-        props = cast(dict, props)
+        # The caller may use the same properties for several resources, so leave them as they are.
+        props = dict(cast(dict, props))
         props[PROVIDER_KEY] = serialize_provider(provider)
 
         super().__init__(f"pulumi-python:{self._resource_type_name}", name, props, opts)
-- 
2.43.0


From 023cd2b2bd0c7e1955756e5967eaba795abb65c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 24/33] fix: reading a missing dynamic resource fails

A ReadResult without outputs is how a provider reports a missing resource.
---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 6940155..20ad332 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -173,7 +173,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
         props = rpc.deserialize_properties(request.properties)
         provider = get_provider(props)
         result = provider.read(id_, props)  # pylint: disable=no-member
-        outs = result.outs
+        outs = result.outs if result.outs is not None else {}
         outs[PROVIDER_KEY] = props[PROVIDER_KEY]
 
         loop = asyncio.new_event_loop()
-- 
2.43.0


From 82e4b6b574eb8fb11183c32d862e379b6eb16757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:32 +0000
Subject: [PATCH 25/33] fix: the stable properties of a dynamic provider's diff
 are dropped

---
 sdk/python/lib/pulumi/dynamic/__main__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 20ad332..472fe6c 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -82,6 +82,8 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
             ] = proto.DiffResponse.DIFF_UNKNOWN  # pylint: disable=no-member
         if result.replaces is not None:
             fields["replaces"] = result.replaces
+        if result.stables is not None:
+            fields["stables"] = result.stables
         if result.delete_before_replace is not None:
             fields["deleteBeforeReplace"] = result.delete_before_replace
         return proto.DiffResponse(**fields)
-- 
2.43.0


From 2b44b7bc92800b41de6687744af2619b3eda540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:51 +0000
Subject: [PATCH 26/33] fix: dynamic resources whose provider is not yet known
 cannot be checked or diffed

Properties are deserialized with unknowns kept as markers, so that the comparison
with their wire form never held.
---
 sdk/python/lib/pulumi/dynamic/__main__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/dynamic/__main__.py b/sdk/python/lib/pulumi/dynamic/__main__.py
index 472fe6c..27e1d8e 100644
--- a/sdk/python/lib/pulumi/dynamic/__main__.py
+++ b/sdk/python/lib/pulumi/dynamic/__main__.py
@@ -21,7 +21,7 @@ import time
 import dill
 import grpc
 from google.protobuf import empty_pb2
-from pulumi.runtime import proto, rpc
+from pulumi.runtime import known_types, proto, rpc
 from pulumi.runtime.proto import provider_pb2_grpc, ResourceProviderServicer
 from pulumi.dynamic import ResourceProvider
 
@@ -61,7 +61,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Diff(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if known_types.is_unknown(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
@@ -133,7 +133,7 @@ class DynamicResourceProviderServicer(ResourceProviderServicer):
     def Check(self, request, context):
         olds = rpc.deserialize_properties(request.olds, True)
         news = rpc.deserialize_properties(request.news, True)
-        if news[PROVIDER_KEY] == rpc.UNKNOWN:
+        if known_types.is_unknown(news[PROVIDER_KEY]):
             provider = get_provider(olds)
         else:
             provider = get_provider(news)
-- 
2.43.0


From b557fcdf7aa7a7e22535bb127eefa254cf75cead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 27/33] fix: engine events lose the stream, the policy's
 resource and the detailed diff

---
 sdk/python/lib/pulumi/automation/events.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/events.py b/sdk/python/lib/pulumi/automation/events.py
index 9afae4e..cec2a4f 100644
--- a/sdk/python/lib/pulumi/automation/events.py
+++ b/sdk/python/lib/pulumi/automation/events.py
@@ -132,7 +132,7 @@ class DiagnosticEvent(BaseEvent):
             message=data.get("message", ""),
             color=data.get("color", ""),
             severity=data.get("severity", ""),
-            stream_id=data.get("streamId"),
+            stream_id=data.get("streamID"),
             ephemeral=data.get("ephemeral"),
             urn=data.get("urn"),
             prefix=data.get("prefix"),
@@ -193,7 +193,7 @@ class PolicyEvent(BaseEvent):
             policy_pack_version=data.get("policyPackVersion", ""),
             policy_pack_version_tag=data.get("policyPackVersionTag", ""),
             enforcement_level=data.get("enforcementLevel", ""),
-            resource_urn=data.get("resource_urn"),
+            resource_urn=data.get("resourceUrn"),
         )
 
 
@@ -437,6 +437,7 @@ class StepEventMetadata(BaseEvent):
     def from_json(cls, data: dict) -> "StepEventMetadata":
         old = data.get("old")
         new = data.get("new")
+        detailed_diff = data.get("detailedDiff")
 
         return cls(
             op=OpType(data.get("op", "")),
@@ -447,7 +448,12 @@ class StepEventMetadata(BaseEvent):
             new=StepEventStateMetadata.from_json(new) if new else None,
             keys=data.get("keys"),
             diffs=data.get("diffs"),
-            detailed_diff=data.get("detailed_diff"),
+            detailed_diff={
+                path: PropertyDiff.from_json(diff)
+                for path, diff in detailed_diff.items()
+            }
+            if detailed_diff
+            else None,
             logical=data.get("logical"),
         )
 
-- 
2.43.0


From 54d8a6104ea9809d85cd5f37d451240c220d047e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 28/33] fix: a half-written line of the event log ends the
 event watcher

---
 sdk/python/lib/pulumi/automation/_stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index e2c5c6a..9e3e040 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -814,15 +814,17 @@ def _create_log_file(command: str) -> Tuple[str, tempfile.TemporaryDirectory]:
 
 def _watch_logs(filename: str, callback: OnEvent):
     with open(filename, encoding="utf-8") as f:
+        line = ""
         while True:
-            line = f.readline()
+            line += f.readline()
 
-            # sleep if file hasn't been updated
-            if not line:
+            # sleep if file hasn't been updated, or the line has not been written to its end
+            if not line.endswith("\n"):
                 time.sleep(0.1)
                 continue
 
             event = EngineEvent.from_json(json.loads(line))
+            line = ""
             callback(event)
 
             # if this is the cancel event, stop watching logs.
-- 
2.43.0


From 936b396eac585da5df1373adb38f101f3a1c5254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 29/33] fix: the history of a stack cannot be read during an
 update or without its secrets

---
 sdk/python/lib/pulumi/automation/_stack.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_stack.py b/sdk/python/lib/pulumi/automation/_stack.py
index 9e3e040..dbe63c6 100644
--- a/sdk/python/lib/pulumi/automation/_stack.py
+++ b/sdk/python/lib/pulumi/automation/_stack.py
@@ -61,7 +61,7 @@ class UpdateSummary:
         config: Mapping[str, dict],
         # post-update info
         result: str,
-        end_time: datetime,
+        end_time: Optional[datetime],
         version: Optional[int] = None,
         deployment: Optional[str] = None,
         resource_changes: Optional[OpMap] = None,
@@ -79,7 +79,7 @@ class UpdateSummary:
         for key in config:
             config_value = config[key]
             self.config[key] = ConfigValue(
-                value=config_value["value"], secret=config_value["secret"]
+                value=config_value.get("value"), secret=config_value["secret"]
             )
 
     def __repr__(self):
@@ -659,7 +659,9 @@ class Stack:
                 environment=summary_json["environment"],
                 config=summary_json["config"],
                 result=summary_json["result"],
-                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT),
+                end_time=datetime.strptime(summary_json["endTime"], _DATETIME_FORMAT)
+                if "endTime" in summary_json
+                else None,
                 version=summary_json["version"] if "version" in summary_json else None,
                 deployment=summary_json["Deployment"]
                 if "Deployment" in summary_json
-- 
2.43.0


From 4d0535f993874055fbccd9e1fccf5993fbaf25b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 30/33] fix: plugins that were never used cannot be listed

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 4 +++-
 sdk/python/lib/pulumi/automation/_workspace.py       | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 84e6837..0746a0e 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -327,7 +327,9 @@ class LocalWorkspace(Workspace):
                 size=plugin_json["size"],
                 last_used_time=datetime.strptime(
                     plugin_json["lastUsedTime"], _DATETIME_FORMAT
-                ),
+                )
+                if "lastUsedTime" in plugin_json
+                else None,
                 install_time=datetime.strptime(
                     plugin_json["installTime"], _DATETIME_FORMAT
                 )
diff --git a/sdk/python/lib/pulumi/automation/_workspace.py b/sdk/python/lib/pulumi/automation/_workspace.py
index 2db0944..05140ce 100644
--- a/sdk/python/lib/pulumi/automation/_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_workspace.py
@@ -64,7 +64,7 @@ class PluginInfo:
     name: str
     kind: str
     size: int
-    last_used_time: datetime
+    last_used_time: Optional[datetime]
     install_time: Optional[datetime]
     version: Optional[str]
 
@@ -73,7 +73,7 @@ class PluginInfo:
         name: str,
         kind: str,
         size: int,
-        last_used_time: datetime,
+        last_used_time: Optional[datetime],
         install_time: Optional[datetime] = None,
         version: Optional[str] = None,
     ) -> None:
@@ -82,6 +82,7 @@ class PluginInfo:
         self.size = size
         self.install_time = install_time
         self.last_used = last_used_time
+        self.last_used_time = last_used_time
         self.version = version
 
 
-- 
2.43.0


From ddc2d7c1f7b6fb25bd9fe2c3d706d2e4aa253185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 31/33] fix: a failing import leaves the stack's state behind

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 0746a0e..8adcf99 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -350,10 +350,12 @@ class LocalWorkspace(Workspace):
     def import_stack(self, stack_name: str, state: Deployment) -> None:
         with tempfile.NamedTemporaryFile(mode="w", delete=False) as file:
             json.dump(state.__dict__, file, indent=4)
-        self._run_pulumi_cmd_sync(
-            ["stack", "import", "--file", file.name, "--stack", stack_name]
-        )
-        os.remove(file.name)
+        try:
+            self._run_pulumi_cmd_sync(
+                ["stack", "import", "--file", file.name, "--stack", stack_name]
+            )
+        finally:
+            os.remove(file.name)
 
     def stack_outputs(self, stack_name: str) -> OutputMap:
         masked_result = self._run_pulumi_cmd_sync(
-- 
2.43.0


From 610e92866e742f4360256fa66f944884d610b4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:05 +0000
Subject: [PATCH 32/33] fix: options used for a stack carry its project over to
 the next stack

---
 sdk/python/lib/pulumi/automation/_local_workspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 8adcf99..901ba0f 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -14,6 +14,7 @@
 
 import os
 import tempfile
+import copy
 import json
 from datetime import datetime
 from typing import Optional, List, Mapping, Callable
@@ -564,7 +565,8 @@ def _inline_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The options are the caller's: they may be used again, for another stack.
+    workspace_options = copy.copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.program = program
 
     if not workspace_options.project_settings:
@@ -591,7 +593,8 @@ def _local_source_stack_helper(
     init_fn: StackInitializer,
     opts: Optional[LocalWorkspaceOptions] = None,
 ):
-    workspace_options = opts or LocalWorkspaceOptions()
+    # The options are the caller's: they may be used again, for another stack.
+    workspace_options = copy.copy(opts) if opts else LocalWorkspaceOptions()
     workspace_options.work_dir = work_dir
 
     ws = LocalWorkspace(**workspace_options.__dict__)
-- 
2.43.0


From a71c8be80a8f0dd48769b3de84584bb356cec5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:50 +0000
Subject: [PATCH 33/33] fix: project settings with a runtime's options, a
 template or a backend cannot be saved

---
 .../lib/pulumi/automation/_local_workspace.py | 23 ++++++++++++++-----
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sdk/python/lib/pulumi/automation/_local_workspace.py b/sdk/python/lib/pulumi/automation/_local_workspace.py
index 901ba0f..a8eff33 100644
--- a/sdk/python/lib/pulumi/automation/_local_workspace.py
+++ b/sdk/python/lib/pulumi/automation/_local_workspace.py
@@ -17,7 +17,7 @@ import tempfile
 import copy
 import json
 from datetime import datetime
-from typing import Optional, List, Mapping, Callable
+from typing import Any, Optional, List, Mapping, Callable
 from semver import VersionInfo
 import yaml
 
@@ -147,11 +147,7 @@ class LocalWorkspace(Workspace):
                 found_ext = ext
                 break
         path = os.path.join(self.work_dir, f"Pulumi{found_ext}")
-        writable_settings = {
-            key: settings.__dict__[key]
-            for key in settings.__dict__
-            if settings.__dict__[key] is not None
-        }
+        writable_settings = _writable_settings(settings)
         with open(path, "w", encoding="utf-8") as file:
             if found_ext == ".json":
                 json.dump(writable_settings, file, indent=4)
@@ -645,6 +641,21 @@ def _parse_and_validate_pulumi_version(
     return version
 
 
+def _writable_settings(value: Any) -> Any:
+    """Project settings, and the settings inside them, as plain data."""
+    if isinstance(value, dict):
+        return {k: _writable_settings(v) for k, v in value.items()}
+    if isinstance(value, list):
+        return [_writable_settings(v) for v in value]
+    if hasattr(value, "__dict__"):
+        return {
+            k: _writable_settings(v)
+            for k, v in value.__dict__.items()
+            if v is not None
+        }
+    return value
+
+
 def _load_project_settings(work_dir: str) -> ProjectSettings:
     for ext in _setting_extensions:
         project_path = os.path.join(work_dir, f"Pulumi{ext}")
-- 
2.43.0

