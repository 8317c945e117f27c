class BackendRep(object):
    def run(self, inputs, **kwargs):
        return (None,)


class Backend(object):
    pass
