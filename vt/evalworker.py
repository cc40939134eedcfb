"""Runs the board's evaluation script with a serial port, a compiler and a flash tool that only record.
stdin: {"lines": [...]}; argument: a copy of the board's directory. stdout: {"events": [...]}."""
import json
import os
import re
import subprocess
import sys
import types

os.chdir(sys.argv[1])
lines = json.load(sys.stdin)["lines"]
events = []
real = sys.stdout


class Port:
    def __init__(self, port=None, baudrate=9600, *a, **kw):
        events.append({"e": "open", "baud": baudrate})

    def readline(self, *a, **kw):
        if not lines:
            events.append({"e": "starved"})
            raise SystemExit(3)
        events.append({"e": "read"})
        return lines.pop(0)

    def flushInput(self):
        pass
    flushOutput = reset_input_buffer = reset_output_buffer = close = flushInput


class Process:
    returncode = 0
    stdout = stderr = None

    def __init__(self, cmd, *a, **kw):
        cmd = cmd if isinstance(cmd, str) else " ".join(cmd)
        with open("src/main.c", encoding="latin-1") as f:
            events.append({"e": "run", "cmd": cmd, "main": f.read()})

    def wait(self, *a, **kw):
        return 0
    poll = wait

    def communicate(self, *a, **kw):
        return "", ""


def run(cmd, *a, **kw):
    Process(cmd)
    return 0


class Out:
    buf = ""

    def write(self, s):
        self.buf += s
        while "\n" in self.buf:
            l, self.buf = self.buf.split("\n", 1)
            events.append({"e": "print", "text": l})

    def flush(self):
        pass


m = types.ModuleType("serial")
m.Serial = Port
sys.modules["serial"] = m
sys.modules.setdefault("numpy", types.ModuleType("numpy"))
subprocess.Popen = Process
subprocess.call = subprocess.check_call = subprocess.check_output = subprocess.run = run
os.system = run
with open("evaluate.py", encoding="utf-8") as f:
    text = f.read()
text = re.sub(r"^([ \t]*)print[ \t]+(?!\()(.*?)[ \t]*$", r"\1print(\2)", text, flags=re.M)     # the script is Python 2
text = re.sub(r"^([ \t]*)print[ \t]*$", r"\1print()", text, flags=re.M)
code = compile(text, "evaluate.py", "exec")
sys.stdout = Out()
sys.argv = ["evaluate.py"]
try:
    exec(code, {"__name__": "__main__", "__file__": "evaluate.py"})
    end = 0
except SystemExit as e:
    end = e.code or 0
except Exception as e:
    events.append({"e": "error", "what": "%s: %s" % (type(e).__name__, e)})
    end = 1
sys.stdout = real
json.dump({"events": events, "end": end}, sys.stdout)
