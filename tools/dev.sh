#!/bin/bash
# dev.sh BIN OUTDIR: build a harness binary and keep it (development aid)
mkdir -p "$2"; cd "$(dirname "$0")/.." && python3 - "$1" "$2" <<'P'
import sys; sys.argv, a = ["run.py"], sys.argv[1:]
src = open("run.py").read().replace('if __name__ == "__main__":\n    sys.exit(main())', "").replace("os.path.dirname(os.path.abspath(__file__))", "os.getcwd()")
exec(src)
try: print(build(a[0], a[1]))
except BindError as e: print(e)
P
