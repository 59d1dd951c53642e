"""Nothing is kept between runs, so setup only makes sure that the tools are there."""
import shutil, sys, os
for t in ("java", "cargo", "rustc"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
if not os.path.exists("/opt/veriftools/tla/tla2tools.jar"):
    sys.exit("TLC is missing")
