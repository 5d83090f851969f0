"""Nothing is installed: every check builds what it runs from /repo's tree. This only checks that the tools are there."""
import shutil, sys
missing = [t for t in ('gcc', 'perl', 'python3') if not shutil.which(t)]
if missing:
    print('missing: ' + ' '.join(missing)); sys.exit(1)
print('ok')
