"""Property texts.  Each module fills ALL (decided or not) through P(); a property without a rule carries na=reason."""
ALL = {}


def P(id, title, statement, over, q, why, files, mech, state=(), observe=(), na=None):
    assert id not in ALL, id
    assert len(title) <= 80, title
    ALL[id] = dict(id=id, title=title, statement=" ".join(statement.split()),
                   quantifier={"over": over.split(), "text": q}, why_tests_cant=" ".join(why.split()),
                   anchors={"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                            **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                            **({"observe_at": list(observe)} if observe else {}), "hook_needed": None})
    if na:
        NA[id] = na


NA = {}
import importlib
import pkgutil
for m in sorted(x.name for x in pkgutil.iter_modules(__path__)):
    importlib.import_module("%s.%s" % (__name__, m))
