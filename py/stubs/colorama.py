"""Stand-in for colorama."""


class _Codes:
    def __getattr__(self, name):
        return "\033[0m"


Fore = Back = Style = _Codes()


def init(*args, **kwargs):
    pass
