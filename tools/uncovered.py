"""Functions of yargy that no check has executed (by the evidence files)."""
import ast, glob, json, os
seen = {}
for f in sorted(glob.glob('/verif/evidence/C*.json')):
    d = json.load(open(f))
    for line in json.dumps(d).replace('"', '\n').split('\n'):
        if line.startswith('yargy/') and ':' in line:
            seen.setdefault(line, []).append(os.path.basename(f)[:3])
for root, _, files in os.walk('/repo/yargy'):
    if 'tests' in root:
        continue
    for name in sorted(files):
        if not name.endswith('.py'):
            continue
        path = os.path.join(root, name)
        rel = path[len('/repo/'):]

        def walk(node, prefix):
            for n in node.body:
                if isinstance(n, ast.FunctionDef):
                    key = '%s:%s%s' % (rel, prefix, n.name)
                    if key not in seen:
                        print(key)
                elif isinstance(n, ast.ClassDef):
                    walk(n, prefix + n.name + '.')
        walk(ast.parse(open(path).read()), '')
