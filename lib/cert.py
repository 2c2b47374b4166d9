def start():
    raise NotImplementedError
def stop():
    pass
