from acltk.aclObjects import ACLConfig, NetworkAny


class Webtype(NetworkAny):
    def __init__(self, url):
        NetworkAny.__init__(self)
        self.url = url


class fwsmConfig(ACLConfig):
    pass
