# use: files
# ------------------------------------------------- a modelled command line
import code as code_module
import time
from clevercsv.console import commands as _commands


class Exit(Exception):
    def __init__(self, status):
        self.status = status


class Namespace:
    pass


class Option:
    def __init__(self, names, spec):
        self.names = names
        self.spec = spec
        self.positional = not names[0].startswith("-")
        dest = spec.get("dest")
        if dest is None:
            long = [n for n in names if n.startswith("--")]
            dest = (long[0] if long else names[0]).lstrip("-").replace("-", "_")
        self.dest = dest

    def convert(self, v):
        t = self.spec.get("type")
        if t is None or t is str:
            return v if __vp_typeof(v) == "str" else str(v)
        if t is int:
            return v
        return t(v)

    def value(self):
        action = self.spec.get("action", "store")
        nargs = self.spec.get("nargs")
        if self.positional:
            USED.append(self.names[0])
            if nargs in ("+", "*"):
                return [self.convert(p) for p in PATHS]
            __vp_assert(len(PATHS) == 1, "cli", "the command does not accept several files")
            return self.convert(PATHS[0])
        given = None
        for n in self.names:
            if n in GIVEN:
                given = n
        if given is None:
            if "default" in self.spec:
                return self.spec["default"]
            if action == "store_true":
                return False
            if action == "store_false":
                return True
            return None
        USED.append(given)
        if action == "store_true":
            return True
        if action == "store_false":
            return False
        if action == "store_const":
            return self.spec["const"]
        if action == "append":
            return [self.convert(v) for v in GIVEN[given]]
        v = GIVEN[given]
        if isinstance(v, list):
            # the last one counts
            v = v[len(v) - 1]
        return self.convert(v)


USED = []
GIVEN = {}
PATHS = []
COMMAND = []


class Registrar:
    specs = None

    def add_argument(self, *names, **spec):
        if self.specs is None:
            self.specs = []
        self.specs.append(Option(names, spec))

    def add_argument_group(self, *args, **kw):
        return self

    def add_mutually_exclusive_group(self, *args, **kw):
        return self


class CommandModel(Registrar):
    def __init__(self, name, title=None, description=None, add_help=True, extra_sections=None, **kw):
        self.name = name
        self.args = None

    def register(self):
        pass


class ApplicationModel(Registrar):
    def __init__(self, name, version=None, **kw):
        self.name = name
        self.commands = []

    def add(self, command):
        self.commands.append(command)
        command.register()

    def run(self, args=None, **kw):
        self.register()
        for c in self.commands:
            if c.name == COMMAND[0]:
                ns = Namespace()
                for o in (self.specs or []) + (c.specs or []):
                    setattr(ns, o.dest, o.value())
                c.args = ns
                for g in GIVEN:
                    __vp_assert(g in USED, "cli", "the option %s is not accepted" % g)
                for n in c.specs or []:
                    for a, b in SHORT:
                        if b in n.names:
                            __vp_assert(a in n.names, "cli", "the option %s cannot be given as %s" % (b, a))
                return c.handle()
        __vp_fail("cli", "there is no such command", COMMAND[0])


SHORT = []
__vp_rebase("wilderness.Command", CommandModel)
__vp_rebase("wilderness.Application", ApplicationModel)


def exit_(status=None):
    raise Exit(status)


VIEWED = []
PUSHED = []
INTERACT = []
PANDAS = []


class FakePandasErrors:
    class ParserWarning(Warning):
        pass


class FakePandas:
    errors = FakePandasErrors

    @staticmethod
    def read_csv(*args, **kw):
        PANDAS.append((args, kw))
        return "frame"


def optional(name, raise_on_missing=True):
    return FakePandas


def view(rows, *args, **kw):
    step("view")
    VIEWED.append(rows)


class Console:
    def __init__(self, *args, **kw):
        pass

    def push(self, line):
        step("push")
        PUSHED.append(line)
        return False

    def interact(self, banner=None, exitmsg=None):
        step("interact")
        INTERACT.append(banner)


__vp_stub("sys.exit", exit_)
__vp_stub("tabview.view", view)
__vp_stub("code.InteractiveConsole", Console)
__vp_patch("clevercsv._optional:import_optional_dependency", optional)

from clevercsv.__main__ import main as program_main


def run_command(name, paths, given):
    """status of the process: None if it ended with an exception"""
    COMMAND.clear()
    COMMAND.append(name)
    PATHS.clear()
    for p in paths:
        PATHS.append(p)
    GIVEN.clear()
    for k in given:
        GIVEN[k] = given[k]
    USED.clear()
    try:
        program_main()
    except Exit as e:
        return 0 if e.status is None else e.status
    return 0


# tabview does not exist on Windows
__vp_assume(sys.platform != "win32")
__vp_assume(not sys.platform.startswith("win"))
