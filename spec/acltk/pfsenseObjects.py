from acltk.aclObjects import ACLConfig, ACLParserOptions, want


class pfsenseParserOptions(ACLParserOptions):
    def __init__(self, fetch_urltable=True, **kwargs):
        ACLParserOptions.__init__(self, **kwargs)
        want(isinstance(fetch_urltable, bool))
        self.fetch_urltable = fetch_urltable


class pfsenseConfig(ACLConfig):
    pass
