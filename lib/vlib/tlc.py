"""Running TLC: model checking, behaviour generation and trace validation."""
import json
import os
import re
import shutil
import subprocess
import tempfile
from dataclasses import dataclass, field

from .env import SPEC

JARS = (
    "/opt/veriftools/tla/tla2tools.jar:"
    "/opt/veriftools/tla/CommunityModules-deps.jar"
)


class TLCError(RuntimeError):
    """TLC could not evaluate the specification (an error of the check)."""


@dataclass
class TLCResult:
    ok: bool
    output: str
    generated: int = 0
    distinct: int = 0
    depth: int = 0
    violated: str | None = None
    errors: list = field(default_factory=list)
    printed: list = field(default_factory=list)


def tla(value):
    """Render a Python value as a TLA+ expression (for constants in MC modules)."""
    if isinstance(value, bool):
        return "TRUE" if value else "FALSE"
    if isinstance(value, int):
        return str(value) if value >= 0 else f"(-{-value})"
    if isinstance(value, str):
        return json.dumps(value)
    if isinstance(value, (list, tuple)):
        return "<<" + ", ".join(tla(v) for v in value) + ">>"
    if isinstance(value, (set, frozenset)):
        return "{" + ", ".join(sorted(tla(v) for v in value)) + "}"
    if isinstance(value, dict):
        return "[" + ", ".join(f"{k} |-> {tla(v)}" for k, v in value.items()) + "]"
    raise TypeError(type(value))


def run(
    workdir,
    module,
    *,
    constants=None,
    definitions="",
    spec="Spec",
    init=None,
    next_=None,
    invariants=(),
    properties=(),
    constraints=(),
    action_constraints=(),
    postcondition=None,
    view=None,
    deadlock=False,
    workers=4,
    simulate=None,
    depth=None,
    seed=None,
    env=None,
    timeout=800,
    heap="3g",
    cont=False,
    extra=(),
    coverage=False,
):
    """Run TLC on SPEC/<module>.tla through a generated MC module."""
    work = tempfile.mkdtemp(prefix=f"tlc-{module}-", dir=workdir)
    constants = dict(constants or {})
    name = f"MC_{module}"
    lines = [f"---- MODULE {name} ----", f"EXTENDS {module}, TLC"]
    cfg = []
    if init:
        cfg += [f"INIT {init}", f"NEXT {next_}"]
    else:
        cfg.append(f"SPECIFICATION {spec}")
    for key, value in constants.items():
        lines.append(f"const_{key} == {value if isinstance(value, Raw) else tla(value)}")
        cfg.append(f"CONSTANT {key} <- const_{key}")
    lines.append(definitions)
    lines.append("====")
    for inv in invariants:
        cfg.append(f"INVARIANT {inv}")
    for prop in properties:
        cfg.append(f"PROPERTY {prop}")
    for item in constraints:
        cfg.append(f"CONSTRAINT {item}")
    for item in action_constraints:
        cfg.append(f"ACTION_CONSTRAINT {item}")
    if postcondition:
        cfg.append(f"POSTCONDITION {postcondition}")
    if view:
        cfg.append(f"VIEW {view}")
    cfg.append(f"CHECK_DEADLOCK {'TRUE' if deadlock else 'FALSE'}")
    with open(os.path.join(work, name + ".tla"), "w") as stream:
        stream.write("\n".join(lines) + "\n")
    with open(os.path.join(work, name + ".cfg"), "w") as stream:
        stream.write("\n".join(cfg) + "\n")
    cmd = [
        "java", "-Xss48m", f"-Xmx{heap}", "-XX:+UseParallelGC", f"-XX:ParallelGCThreads={max(1, min(4, workers))}",
        f"-DTLA-Library={SPEC}", f"-Djava.io.tmpdir={work}", "-cp", JARS, "tlc2.TLC",
        "-config", name + ".cfg", "-metadir", os.path.join(work, "meta"),
        "-noGenerateSpecTE", "-workers", str(workers),
    ]
    if simulate:
        cmd += ["-simulate", f"num={simulate}"]
    if depth:
        cmd += ["-depth", str(depth)]
    if seed is not None:
        cmd += ["-seed", str(seed)]
    if cont:
        cmd.append("-continue")
    if coverage:
        cmd += ["-coverage", "1"]
    cmd += list(extra) + [name + ".tla"]
    full_env = dict(os.environ)
    full_env.update({k: str(v) for k, v in (env or {}).items()})
    full_env.pop("JAVA_TOOL_OPTIONS", None)
    try:
        done = subprocess.run(
            cmd, cwd=work, env=full_env, capture_output=True, text=True, timeout=timeout
        )
        output = done.stdout + done.stderr
        code = done.returncode
    except subprocess.TimeoutExpired as exc:
        raise TLCError(f"TLC timed out after {timeout}s on {module}") from exc
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return _parse(output, code, module)


class Raw(str):
    """A constant given as TLA+ text."""


_STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found")
_SIM = re.compile(r"The number of states generated: (\d+)")
_DEPTH = re.compile(r"The depth of the complete state graph search is (\d+)")


def _parse(output, code, module):
    result = TLCResult(ok=code == 0, output=output)
    for match in _STATS.finditer(output):
        result.generated, result.distinct = int(match[1]), int(match[2])
    match = _SIM.search(output)
    if match:
        result.generated = int(match[1])
    match = _DEPTH.search(output)
    if match:
        result.depth = int(match[1])
    for line in output.splitlines():
        if line.startswith("Error: Invariant "):
            result.violated = line[len("Error: Invariant "):].split(" ")[0]
        elif "is violated" in line and line.startswith("Error:") and not result.violated:
            result.violated = line
        elif line.startswith('"@@'):
            try:
                result.printed.append(json.loads(json.loads(line)[2:]))
            except ValueError:
                # TLC escapes only quotes and backslashes.
                text = line[1:-1].replace('\\"', '"').replace("\\\\", "\\")
                result.printed.append(json.loads(text[2:]))
    result.errors = [l for l in output.splitlines() if l.startswith("Error:")]
    if code not in (0, 10, 11, 12, 13):
        rows = output.splitlines()
        at = next((i for i, l in enumerate(rows) if l.startswith("Error:")), max(0, len(rows) - 40))
        tail = "\n".join(l[:400] for l in rows[at:at + 40])
        raise TLCError(f"TLC exit {code} on {module}:\n{tail}")
    if code != 0 and not result.violated:
        result.violated = "; ".join(result.errors) or f"exit {code}"
    return result
