"""Native only: a stand-in for the pulumi command that records how it is called and gives a prepared answer."""
import json
import os
import tempfile

SCRIPT = """#!/bin/sh
d='%s'
n=$(ls "$d/calls" | wc -l)
for a in "$@"; do printf '%%s\\0' "$a"; done > "$d/calls/$n"
{ pwd; printf '%%s\\n' "$PULUMI_DEBUG_COMMANDS" "$PULUMI_HOME" "$SOME_VAR"; } > "$d/env/$n"
if [ "$1" = version ]; then echo v3.99.0; exit 0; fi
case " $* " in
*" --json "*|*" export "*|*" whoami "*)
  case " $* " in
  *" --show-secrets "*) cat "$d/shown" ;;
  *) cat "$d/masked" ;;
  esac ;;
*) echo "done" ;;
esac
echo "a warning" >&2
exit $(cat "$d/code")
"""


class Cli:
    """A pulumi command in a scratch directory, first on the PATH while in use."""

    def __enter__(self):
        self.scratch = tempfile.TemporaryDirectory()
        self.dir = self.scratch.name
        for n in ["calls", "env", "work", "bin"]:
            os.mkdir(os.path.join(self.dir, n))
        with open(os.path.join(self.dir, "bin", "pulumi"), "w") as f:
            f.write(SCRIPT % self.dir)
        os.chmod(os.path.join(self.dir, "bin", "pulumi"), 0o755)
        self.work = os.path.join(self.dir, "work")
        self.path = os.environ["PATH"]
        os.environ["PATH"] = os.path.join(self.dir, "bin") + ":/usr/bin:/bin"
        self.answer("", "")
        return self

    def __exit__(self, *exc):
        os.environ["PATH"] = self.path
        self.scratch.cleanup()
        return False

    def answer(self, masked, shown=None, code=0):
        """What the command prints, with and without --show-secrets, and how it ends."""
        for name, text in [("masked", masked), ("shown", masked if shown is None else shown), ("code", code)]:
            with open(os.path.join(self.dir, name), "w") as f:
                f.write(str(code) if name == "code" else text if isinstance(text, str) else json.dumps(text, indent=r_indent(text)))
        self.skip = len(os.listdir(os.path.join(self.dir, "calls")))

    def calls(self):
        """The arguments of the calls since the answer was prepared."""
        out = []
        for n in range(self.skip, len(os.listdir(os.path.join(self.dir, "calls")))):
            with open(os.path.join(self.dir, "calls", str(n))) as f:
                out.append(f.read().split("\0")[:-1])
        return out

    def environment(self, n=-1):
        """The directory, PULUMI_DEBUG_COMMANDS, PULUMI_HOME and SOME_VAR of a call."""
        count = len(os.listdir(os.path.join(self.dir, "env")))
        with open(os.path.join(self.dir, "env", str(count + n if n < 0 else n))) as f:
            return f.read().split("\n")[:4]


def r_indent(text):
    return 2 if len(text) % 2 else None
