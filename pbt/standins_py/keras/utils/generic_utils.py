def slice_arrays(arrays, start=None, stop=None):
    if arrays is None:
        return [None]
    if isinstance(arrays, list):
        if hasattr(start, '__len__'):
            return [None if x is None else x[start] for x in arrays]
        return [None if x is None else x[start:stop] for x in arrays]
    if hasattr(start, '__len__'):
        return arrays[start]
    return arrays[start:stop]
