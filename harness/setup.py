"""Nothing to install: every check builds what it needs from the committed files. This only
confirms that the toolchain is there."""
import subprocess, sys
for c in (["cargo", "--version"], ["rustc", "--version"]):
    print(subprocess.run(c, check=True, stdout=subprocess.PIPE).stdout.decode().strip())
