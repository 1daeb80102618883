"""setup_cmd: verifies the toolchain; brings the release build up to date."""
import shutil
import sys

from k2v import build

for t in ('cmake', 'ninja', 'g++', 'ccache'):
    if not shutil.which(t):
        print('missing (a check may not work):', t)
b = build.release()
print('setup ok', b)
