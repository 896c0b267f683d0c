"""Checks that the tools the checks need are there. Every check builds what it needs from /repo by itself."""
import os, subprocess, sys
for p in ("/usr/bin/clang++-18", "/usr/lib/x86_64-linux-gnu/android/libcrypto.so", "/usr/include/android/openssl/evp.h"):
    if not os.path.exists(p):
        sys.exit("missing: " + p)
subprocess.run(["/usr/bin/clang++-18", "--version"], check=True)
