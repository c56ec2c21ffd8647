"""Stand-in for the clipboard: one cell, and a seam for failures."""


class PyperclipException(RuntimeError):
    pass


class PyperclipWindowsException(PyperclipException):
    pass


class SimClipboard:
    content = None
    copies = 0
    hook = None


SIM = SimClipboard()


def copy(text):
    if SIM.hook is not None:
        SIM.hook()
    if not isinstance(text, (str, int, float, bool)):
        raise PyperclipException(f"only str, int, float, and bool values can be copied to the clipboard, not {type(text).__name__}")
    SIM.content = str(text)
    SIM.copies += 1


def paste():
    return SIM.content or ""


def is_available():
    return True


def determine_clipboard():
    return copy, paste


def set_clipboard(name):
    pass
