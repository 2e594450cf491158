import ipaddress

from acltk.aclObjects import ACLConfig, ACLRules, ACLRule, Interface, want


class Route:
    def __init__(self, network, gw):
        want(isinstance(network, ipaddress.IPv4Network))
        want(isinstance(gw, (ipaddress.IPv4Address, Interface)))
        self.network = network
        self.gw = gw


class iosConfig(ACLConfig):
    def __init__(self, ast):
        self.routes = []
        rules = []
        routes = []
        for i in list(ast):
            if isinstance(i, ACLRules):
                for r in i.rules:
                    rules.append(r)
            elif isinstance(i, ACLRule):
                rules.append(i)
            elif isinstance(i, Route):
                routes.append(i)
        ACLConfig.__init__(self, ast)
        self.rules.rules = rules
        self.routes = routes
        for route in routes:
            if isinstance(route.gw, Interface):
                route.gw.routes.add(route)
                continue
            for iface in self.interfaces.values():
                if any([route.gw in a.interface.network for a in iface.addresses]):
                    iface.routes.add(route)
