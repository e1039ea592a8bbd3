"""serialization of initializers, regularizers and constraints"""


def serialize(o):
    return None if o is None else {'class_name': type(o).__name__, 'config': o.get_config()} if hasattr(o, 'get_config') else o.__name__


def getter(classes, aliases, none=True):
    def get(x):
        if x is None and none:
            return None
        if isinstance(x, dict):
            if x['class_name'] not in classes:
                raise ValueError('Unknown object: ' + x['class_name'])
            return classes[x['class_name']](**x['config'])
        if isinstance(x, str):
            n = aliases.get(x, x)
            if n not in classes:
                raise ValueError('Unknown object: ' + x)
            return classes[n]()
        if callable(x):
            return x
        raise ValueError('Could not interpret identifier: %r' % (x,))
    return get
