"""Nothing is kept between runs: every check builds what it needs. This only verifies that the tools exist."""
import shutil, sys
missing = [t for t in ('cargo', 'z3', 'verus') if not shutil.which(t)]
print('tools:', 'ok' if not missing else 'missing ' + ' '.join(missing))
sys.exit(0)
