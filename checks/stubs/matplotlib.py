"""Stand-in for matplotlib"""


def use(*_, **__):
    return None
