"""Tiny stand-in for pydantic v1 models: defaults, default factories, nested models and unions of models."""
import sys
import types
import typing


class _Field:
    def __init__(self, default=..., default_factory=None, **kw):
        self.default, self.default_factory = default, default_factory


def Field(default=..., default_factory=None, **kw):
    return _Field(default, default_factory, **kw)


def _marker(names, mode):
    def wrap(fn):
        raw = fn.__func__ if isinstance(fn, classmethod) else fn
        raw._checks = (names, mode)
        return fn if isinstance(fn, classmethod) else raw

    return wrap


def field_validator(*names, mode="after", **kw):
    return _marker(names, mode)


def validator(*names, pre=False, **kw):
    return _marker(names, "before" if pre else "after")


def model_validator(mode="after"):
    return _marker((), "model " + mode)


class ValidationError(ValueError):
    pass


def _coerce(value, hint):
    origin = typing.get_origin(hint)
    if origin in (typing.Union, types.UnionType):
        errors = []
        for alt in typing.get_args(hint):
            try:
                return _coerce(value, alt)
            except (ValidationError, TypeError, ValueError) as e:
                errors.append(e)
        raise ValidationError(str(errors))
    if origin is typing.Literal:
        if value in typing.get_args(hint):
            return value
        raise ValidationError(f"{value!r} is not one of {typing.get_args(hint)}")
    if origin is dict:
        kt, vt = typing.get_args(hint)
        if not isinstance(value, dict):
            raise ValidationError("a dict is expected")
        return {_coerce(k, kt): _coerce(v, vt) for k, v in value.items()}
    if hint is type(None):
        if value is None:
            return None
        raise ValidationError("None is expected")
    if isinstance(hint, type) and issubclass(hint, BaseModel):
        if isinstance(value, hint):
            return value
        if isinstance(value, dict):
            return hint(**value)
        raise ValidationError(f"{hint.__name__} is expected")
    if value is None:
        raise ValidationError("none is not an allowed value")
    if hint is bool:
        if isinstance(value, bool):
            return value
        raise ValidationError("a bool is expected")
    if hint in (int, float, str):
        if isinstance(value, (dict, list)) or isinstance(value, BaseModel):
            raise ValidationError(f"{hint.__name__} is expected")
        return hint(value)
    return value


class BaseModel:
    def __init__(self, **data):
        cls = type(self)
        hints = {}
        for base in reversed(cls.__mro__):
            if "__annotations__" in base.__dict__ and issubclass(base, BaseModel) and base is not BaseModel:
                ns = vars(sys.modules[base.__module__])
                for k, v in base.__annotations__.items():
                    hints[k] = eval(v, dict(ns)) if isinstance(v, str) else v
        checks = []
        for base in reversed(cls.__mro__):
            for v in base.__dict__.values():
                raw = v.__func__ if isinstance(v, classmethod) else v
                if hasattr(raw, "_checks"):
                    checks.append((raw, *raw._checks))
        for raw, _, mode in checks:
            if mode == "model before":
                data = raw(cls, data)
        for name, hint in hints.items():
            for raw, names, mode in checks:
                if mode == "before" and name in names and name in data:
                    data = {**data, name: raw(cls, data[name])}
            default = getattr(cls, name, ...)
            if name in data:
                setattr(self, name, _coerce(data[name], hint))
            elif isinstance(default, _Field):
                setattr(self, name, default.default_factory() if default.default_factory else default.default)
            elif default is ...:
                raise ValidationError(f"{name}: field required")
            else:
                import copy

                setattr(self, name, copy.deepcopy(default))
        for raw, names, mode in checks:
            if mode == "after":
                for name in names:
                    if name in data:
                        setattr(self, name, raw(cls, getattr(self, name)))
            elif mode == "model after":
                raw(self)
        extra = set(data) - set(hints)
        self.__dict__["_ignored"] = sorted(extra)  # pydantic's default: extra fields are ignored

    # ------------------------------------------------------------ the rest of the usual interface
    @classmethod
    def _names(cls):
        names = []
        for base in reversed(cls.__mro__):
            if "__annotations__" in base.__dict__ and issubclass(base, BaseModel) and base is not BaseModel:
                names += [n for n in base.__annotations__ if n not in names]
        return names

    def model_dump(self, **kw):
        def plain(v):
            if isinstance(v, BaseModel):
                return v.model_dump()
            if isinstance(v, dict):
                return {k: plain(w) for k, w in v.items()}
            if isinstance(v, (list, tuple)):
                return type(v)(plain(w) for w in v)
            return v

        return {n: plain(getattr(self, n)) for n in self._names()}

    dict = model_dump

    def model_dump_json(self, **kw):
        import json

        return json.dumps(self.model_dump(), **kw)

    json = model_dump_json

    @classmethod
    def model_validate(cls, data):
        return data if isinstance(data, cls) else cls(**data)

    parse_obj = model_validate

    def model_copy(self, update=None, deep=False):
        import copy

        new = copy.deepcopy(self) if deep else copy.copy(self)
        for k, v in (update or {}).items():
            setattr(new, k, v)
        return new

    def copy(self, update=None, deep=False):
        return self.model_copy(update=update, deep=deep)

    def __eq__(self, other):
        return type(self) is type(other) and self.model_dump() == other.model_dump()

    __hash__ = None

    def __repr__(self):
        return f"{type(self).__name__}({', '.join(f'{k}={v!r}' for k, v in self.model_dump().items())})"


ConfigDict = dict
