"""Nothing to install: confirm that the interpreter and the analysed tree are there."""
import ast
import os
import sys

assert sys.version_info >= (3, 8)
root = os.path.join(os.environ.get('VERIF_REPO', '/repo'), 'cqcpy')
for f in sorted(os.listdir(root)):
    if f.endswith('.py'):
        ast.parse(open(os.path.join(root, f)).read(), f)
print('ok')
