"""Which module decides which property."""
LEVEL = {}


def module(prop):
    if prop.startswith('T'):
        import toolcheck
        return toolcheck
    if prop in ('C01', 'C02', 'C03', 'C04'):
        import ckptcheck
        return ckptcheck
    import runcheck
    return runcheck
