import logging


class TextualHandler(logging.Handler):
    def __init__(self, stderr=True, stdout=False):
        super().__init__()

    def emit(self, record):
        pass
