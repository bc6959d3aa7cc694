"""Run under Python 3.12.3: the library needs PEP 695 annotations resolvable by
inspect.get_annotations(eval_str=True), which that interpreter lacks (fixed in 3.12.4)."""
import inspect

_orig = inspect.get_annotations


def _get_annotations(obj, *, globals=None, locals=None, eval_str=False):
    if not eval_str:
        return _orig(obj, globals=globals, locals=locals, eval_str=False)
    tp = getattr(obj, "__type_params__", ())
    if tp:
        if isinstance(obj, type):
            locals = dict(vars(obj)) if locals is None else dict(locals)
        else:
            locals = dict(locals or {})
        locals = {**{p.__name__: p for p in tp}, **locals}
    return _orig(obj, globals=globals, locals=locals, eval_str=True)


def install():
    if inspect.get_annotations is not _get_annotations:
        inspect.get_annotations = _get_annotations
