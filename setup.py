"""nothing is built ahead: every check rebuilds what it needs from /repo; this only tests that the tools are there"""
import shutil, sys
miss = [t for t in ('clang++', 'g++', 'verus') if not shutil.which(t)]
if miss:
    sys.exit('missing tools: ' + ', '.join(miss))
print('tools found')
