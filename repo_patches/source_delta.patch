From 5e0be4e374c471d2e404a5515a0b1fee0455a289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 01/39] fix: compare numeric port range bounds as numbers

---
 lib/acltk/aclObjects.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 5602a82..0f663cd 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -902,11 +902,10 @@ class Port:
 class PortRange:
     def __init__(self, start, stop):
         try:
-            int(start)
-            int(stop)
-            assert start < stop, "last Port must be greater than first"
+            valid = int(start) < int(stop)
         except ValueError:
-            pass
+            valid = True
+        assert valid, "last Port must be greater than first"
         self.start = start
         self.stop = stop
 
-- 
2.43.0


From ac3ffca1eba626f7f5916fafb5d66882896f80fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 02/39] fix: match two wildcard networks, keep wildcard
 networks in their address family

---
 lib/acltk/aclObjects.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 0f663cd..b71a409 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -473,9 +473,15 @@ class NetworkWildcard:
         return l
 
     def __and__(self, other):
-        if isinstance(other, NetworkHost):
+        if isinstance(other, NetworkWildcard):
+            return (int(other.address) ^ int(self.address)) & ~int(other.wildcard) & ~int(self.wildcard) == 0
+        elif isinstance(other, NetworkHost):
+            if other.address.version != self.address.version:
+                return False
             return int(other.address) & ~int(self.wildcard) == int(self.address) & ~int(self.wildcard)
         elif isinstance(other, Network):
+            if other.network.version != self.address.version:
+                return False
             return int(other.network.network_address) & ~int(self.wildcard) == int(self.address) & int(
                 other.network.netmask
             ) & ~int(self.wildcard)
-- 
2.43.0


From 3dc2d6e3576669d1e0143d38c591a300da3c8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 03/39] fix: resolve rules of an access list which is bound to
 an interface

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index b71a409..f370c1d 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1312,7 +1312,7 @@ class ACLConfig:
                     if isinstance(v, TimeRange):
                         r.add(v)
                 if i.id in self.access_groups:
-                    r.add(self.access_groups[i.id])
+                    r.update(self.access_groups[i.id])
             elif isinstance(i, NATObject):
                 if i.real.src:
                     r.add(i.real.src.node)
-- 
2.43.0


From 3d086f5655ce8c865b12150a195cb1f6c52b5f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 04/39] fix: register ASA access-group bindings by the name of
 their list

---
 lib/acltk/aclObjects.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index f370c1d..d2a55f1 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1245,6 +1245,7 @@ class ACLConfig:
                     if j.nameif == i.iface:
                         i.iface = j
                         j.access_groups[i.direction] = i
+                        self.access_groups[i.name].append(i)
                         break
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
-- 
2.43.0


From 5c2f9073b66a3c3b81a2015d5934943061ac0018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 05/39] fix: sort copies of protocol and service groups without
 collapse()

---
 lib/acltk/aclObjects.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index d2a55f1..32cd88a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -312,9 +312,9 @@ class ProtocolGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ProtocolGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ProtocolGroup.key_of)
 
         return obj
 
@@ -739,9 +739,9 @@ class ServiceGroup(_Group):
         if insitu:
             obj = self
         else:
-            obj = self.collapse(insitu=False)
+            obj = self.expand(insitu=False)
 
-        obj.objects = sorted(self.objects, key=ServiceGroup.key_of)
+        obj.objects = sorted(obj.objects, key=ServiceGroup.key_of)
         return obj
 
     def expand(self, insitu=True):
-- 
2.43.0


From 7eb16481ebd214955b23d75e222439b21aac5593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 06/39] fix: collapse and sort a copy of a network group
 without touching the group

---
 lib/acltk/aclObjects.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 32cd88a..a1837ee 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -620,7 +620,7 @@ class NetworkGroup(_Group):
                 raise ValueError("expansion required")
             obj = self.expand(insitu)
         else:
-            obj = self
+            obj = self if insitu else self.expand(insitu)
         return obj._collapse()
 
     def _collapse(self):
@@ -668,7 +668,7 @@ class NetworkGroup(_Group):
         else:
             obj = self.collapse(insitu=False)
 
-        obj.objects = sorted(self.objects, key=NetworkGroup.key_of)
+        obj.objects = sorted(obj.objects, key=NetworkGroup.key_of)
 
         return obj
 
-- 
2.43.0


From 1d9ec00f58b8121de15b32a3ba3e856aa795c358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 07/39] fix: look up service names for a protocol

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a1837ee..a00a71f 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -856,7 +856,7 @@ class PortUtil:
     @classmethod
     def getservbyname(cls, name, proto=None):
         for s in cls.services():
-            if s.name == name and (proto is None or proto.toupper() == s.protocol):
+            if s.name == name and (proto is None or proto.upper() == s.protocol):
                 return int(s.port)
         return None
 
-- 
2.43.0


From d5be4d48d63f951eba9c2048adc56b3eaed4ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 08/39] fix: do not drop network and service object definitions

---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index b06e8fa..8650f57 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -159,7 +159,7 @@ class aclSemantics:
         return p
 
     def object(self, ast):
-        return ast[1]
+        return ast[2]
 
     def object_group(self, ast):
         return ast[2]
-- 
2.43.0


From 17f672ab96f831838521bb91feeb75c5805908f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 09/39] fix: auto NAT of a re-opened network object translates
 the defined object

---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 8650f57..a1603b2 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -153,7 +153,7 @@ class aclSemantics:
             self._learn(ast.name, p)
 
         if nat:
-            nat.real.src.node = p
+            nat.real.src.node = groups[ast.name]
             setattr(p, "nat", nat)
 
         return p
-- 
2.43.0


From f8c457cb629e7e7477cf219da9dfb0bb8cf0e1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:22 +0000
Subject: [PATCH 10/39] fix: keep real and mapped service of static object NAT
 apart

---
 lib/acltk/aclSemantics.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index a1603b2..2c754c7 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -458,8 +458,8 @@ class aclSemantics:
             if ast.service == "dns":
                 options["dns"] = True
             elif isinstance(ast.service, Service):
-                real["service"] = Service(ast.service.protocol, None, ast.service.dst)
-                mapped["service"] = Service(ast.service.protocol, None, ast.service.src)
+                real["service"] = Service(ast.service.protocol, None, ast.service.src)
+                mapped["service"] = Service(ast.service.protocol, None, ast.service.dst)
             else:
                 raise ValueError(ast.service)
 
@@ -467,7 +467,7 @@ class aclSemantics:
             options[i] = True
 
         r = NATObject(
-            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), mapped.get("service", None)),
+            NATReal(real["iface"], NATRealNode(real["src"]), NATRealNode(real["dst"]), real.get("service", None)),
             NATMapped(
                 mapped["iface"],
                 NATMappedSource(ast.type, mapped["src"], fallback),
-- 
2.43.0


From 5f7b4aadf9e57a0cc7e6fc1901a49c81eccd036c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 11/39] fix: accept 'switchport trunk allowed vlan add' without
 a previous list

---
 lib/acltk/aclObjects.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index a00a71f..6d70ed0 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -81,7 +81,10 @@ class Interface:
                     if (op:=i.value["value"]["op"]) == "set":
                         self.switchport.trunk = i.value["value"]["vlans"]
                     elif op == "add":
-                        self.switchport.trunk.items.extend(i.value["value"]["vlans"].items)
+                        if self.switchport.trunk is None:
+                            self.switchport.trunk = i.value["value"]["vlans"]
+                        else:
+                            self.switchport.trunk.items.extend(i.value["value"]["vlans"].items)
             elif i.type[0] == "ip":
                 if i.type[2] == "address":
                     self.addresses.append(InterfaceAddress(i.value[0], i.value[2]))
-- 
2.43.0


From cc1dc6aeda8d7fea9adec3f9a5e0be8bc9c1c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:12 +0000
Subject: [PATCH 12/39] fix: read IOS address masks as wildcard masks

---
 lib/acltk/iosSemantics.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 509449b..88a42ea 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -18,12 +18,23 @@ class iosSemantics(aclSemantics):
     def grammar(self, ast) -> ACLConfig:
         return iosConfig(ast)
 
+    def _wildcard(self, address, wildcard) -> Union[Network, NetworkWildcard]:
+        # set bits are ignored, it is a prefix if the ignored bits are the trailing bits
+        w = int(wildcard)
+        if w & (w + 1) == 0:
+            return Network(address, 32 - w.bit_length())
+        return NetworkWildcard(address, wildcard)
+
+    def acl_host(self, ast):
+        # ip access-list numbers use wildcards as well
+        if ast.type == "network" and isinstance(ast.netmask, ipaddress.IPv4Address):
+            addr, target = self._resolve_addr(ast.address)
+            return self._wildcard(addr, ast.netmask)
+        return aclSemantics.acl_host(self, ast)
+
     def ios_host(self, ast) -> Union[Network, NetworkAny, NetworkHost]:
         if ast.type == "wildcard":
-            try:
-                return Network(ast.address, ast.wildcard)
-            except:
-                return NetworkWildcard(ast.address, ast.wildcard)
+            return self._wildcard(ast.address, ast.wildcard)
         elif ast.type == "object-group":
             return ast.group
         elif ast.type == "any":
-- 
2.43.0


From e1220928b0db5da0e3e48bd292896d1fec63da88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 13/39] fix: recognise log-input, mobility-type and
 routing-type of IPv6 access lists

---
 lib/acltk/ios.bnf |  6 +++---
 lib/acltk/ios.py  | 10 +++++-----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 7f3950b..bfd8dd1 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -126,12 +126,12 @@ ipv6_access_list_rule_option
 	| type:"dscp" WS value:identifier
 	| type:"flow-label" WS value:identifier
 	| type:"fragments"
-	| type:"log"
 	| type:"log-input"
-	| type:"mobility"
+	| type:"log"
 	| type:"mobility-type" value:int
-	| type:"routing"
+	| type:"mobility"
 	| type:"routing-type" [value:int]
+	| type:"routing"
 	| type:"time-range" WS value:identifier
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 706fa46..d41e3db 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2974,14 +2974,11 @@ class iosParser(Parser):
             with self._option():
                 self._token('fragments')
                 self.name_last_node('type')
-            with self._option():
-                self._token('log')
-                self.name_last_node('type')
             with self._option():
                 self._token('log-input')
                 self.name_last_node('type')
             with self._option():
-                self._token('mobility')
+                self._token('log')
                 self.name_last_node('type')
             with self._option():
                 self._token('mobility-type')
@@ -2990,7 +2987,7 @@ class iosParser(Parser):
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
             with self._option():
-                self._token('routing')
+                self._token('mobility')
                 self.name_last_node('type')
             with self._option():
                 self._token('routing-type')
@@ -2999,6 +2996,9 @@ class iosParser(Parser):
                     self._int_()
                     self.name_last_node('value')
                 self._define(['type', 'value'], [])
+            with self._option():
+                self._token('routing')
+                self.name_last_node('type')
             with self._option():
                 self._token('time-range')
                 self.name_last_node('type')
-- 
2.43.0


From 93c827f947e7b74ff9bd01b9e20042b5ce99c3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:28 +0000
Subject: [PATCH 14/39] fix: keep ASA interface addresses without a standby
 address

---
 lib/acltk/fwsm.bnf |  4 ++--
 lib/acltk/fwsm.py  | 24 ++++++++++++++----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index f2206cf..3e25691 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -31,8 +31,8 @@ command
 interface_detail
 	= type:"description" WS value:TOEOL NL
 	| type:"nameif" WS value:identifier [WS] NL
-	| type:("ip" WS "address") WS value:(ip4 WS ip4) WS "standby" WS standby:ip4 [WS] NL
-	| type:("ipv6" WS "address") WS value:(ip6 "/" int) WS "standby" WS standby:ip6 [WS] NL
+	| type:("ip" WS "address") WS value:(ip4 WS ip4) [WS "standby" WS standby:ip4] [WS] NL
+	| type:("ipv6" WS "address") WS value:(ip6 "/" int) [WS "standby" WS standby:ip6] [WS] NL
 	| type:`None` ["no" WS] TOEOL NL
 	| type:`None` ()
 	;
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7740e87..7953002 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -2690,11 +2690,13 @@ class fwsmParser(Parser):
                     self._WS_()
                     self._ip4_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip4_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip4_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
@@ -2711,11 +2713,13 @@ class fwsmParser(Parser):
                     self._token('/')
                     self._int_()
                 self.name_last_node('value')
-                self._WS_()
-                self._token('standby')
-                self._WS_()
-                self._ip6_()
-                self.name_last_node('standby')
+                with self._optional():
+                    self._WS_()
+                    self._token('standby')
+                    self._WS_()
+                    self._ip6_()
+                    self.name_last_node('standby')
+                    self._define(['standby'], [])
                 with self._optional():
                     self._WS_()
                 self._NL_()
-- 
2.43.0


From 479511a7e3b9174602c8f07cc538f1dd81535cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 15/39] fix: keep the port of port-object eq

---
 lib/acltk/acl.bnf | 2 +-
 lib/acltk/fwsm.py | 3 ++-
 lib/acltk/ios.py  | 3 ++-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 33d452c..0407cb4 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -384,7 +384,7 @@ service_group_object
 	;
 
 port_group_object
-	= type:"port-object" WS op:"eq" WS port NL
+	= type:"port-object" WS op:"eq" WS port:port NL
 	| type:"port-object" WS op:"range" WS begin:port WS end:port NL
 	| type:"group-object" WS object:acl_object_group_port NL
 	| type:`None` ()
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 7953002..a2dfd85 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1664,8 +1664,9 @@ class fwsmParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index d41e3db..61e15ab 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1654,8 +1654,9 @@ class iosParser(Parser):
                 self.name_last_node('op')
                 self._WS_()
                 self._port_()
+                self.name_last_node('port')
                 self._NL_()
-                self._define(['op', 'type'], [])
+                self._define(['op', 'port', 'type'], [])
             with self._option():
                 self._token('port-object')
                 self.name_last_node('type')
-- 
2.43.0


From e7a5a928cbfb81024100a5d0d06d98c126a92c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 16/39] fix: do not ignore the id in front of a block of a
 query

---
 lib/acltk/cafSemantics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/cafSemantics.py b/lib/acltk/cafSemantics.py
index 8218116..669285b 100644
--- a/lib/acltk/cafSemantics.py
+++ b/lib/acltk/cafSemantics.py
@@ -90,7 +90,10 @@ class RealCafSemantics:
         objects = list(filter(lambda i: i is not None, ast.objects))
 
         if len(objects) == 1 and isinstance(objects[0], cafBlock):
-            return objects[0]
+            if not ast.id:
+                return objects[0]
+            rule = ACLRule(id=ast.id, src=ACLNode(NetworkAny()), dst=ACLNode(NetworkAny()))
+            return cafBlock(cafOpIntersect(rule, objects[0]))
         ip = []
         for i in objects:
             if "ip" in i:
-- 
2.43.0


From 0746f6a37884e3bb1cbe17f5ad3b1dcdabcda82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 17/39] fix: accept pfSense interfaces with a static address

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index ea58500..2dd202f 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -89,7 +89,7 @@ class pfsenseParser(aclParser):
             if "ipaddr" in values:
                 if values["ipaddr"] != "dhcp":
                     details = [
-                        tatsu.ast.AST(**{"type": ["ip", "address"], "value": [values["ipaddr"], values["subnet"]]})
+                        tatsu.ast.AST(**{"type": ["ip", None, "address"], "value": [values["ipaddr"], None, values["subnet"]]})
                     ]
                 else:
                     details = [tatsu.ast.AST(**{"type": "nameif", "value": values["if"]})]
-- 
2.43.0


From d79685fa9a01b77a7541dc66f76df413e13aeb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 18/39] fix: accept optional interfaces as network of a pfSense
 rule

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 2dd202f..15ab9ed 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -287,7 +287,7 @@ class pfsenseParser(aclParser):
                             else:
                                 port = Port("eq", port)
                     elif n.tag == "network":
-                        address = n.text
+                        address = self.interface_map.get(n.text, n.text)
                         if address in self.interfaces:
                             address = NetworkInterface(self.interfaces[address].alias)
                         else:
-- 
2.43.0


From 0439cc165c9c4ec323e5bf650956e334ed8381a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:42 +0000
Subject: [PATCH 19/39] fix: accept generic parser options for pfSense

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 15ab9ed..15d37ac 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -146,7 +146,7 @@ class pfsenseParser(aclParser):
                 g = NetworkGroup(values["name"], values["descr"])
                 self.network_groups[values["name"]] = g
 
-                if self._options.fetch_urltable:
+                if getattr(self._options, "fetch_urltable", False):
                     try:
                         req = urllib.request.urlopen(values["url"])
                         data = req.read().decode("utf-8")
-- 
2.43.0


From 5483b7ddd668bf074f78cdc6f80e44ca86ec3d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:00 +0000
Subject: [PATCH 20/39] fix: accept the value of mobility-type and routing-type

---
 lib/acltk/ios.bnf | 4 ++--
 lib/acltk/ios.py  | 3 +++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index bfd8dd1..d1cd1de 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -128,9 +128,9 @@ ipv6_access_list_rule_option
 	| type:"fragments"
 	| type:"log-input"
 	| type:"log"
-	| type:"mobility-type" value:int
+	| type:"mobility-type" WS value:int
 	| type:"mobility"
-	| type:"routing-type" [value:int]
+	| type:"routing-type" [WS value:int]
 	| type:"routing"
 	| type:"time-range" WS value:identifier
 	;
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 61e15ab..2a4c1e6 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2984,6 +2984,7 @@ class iosParser(Parser):
             with self._option():
                 self._token('mobility-type')
                 self.name_last_node('type')
+                self._WS_()
                 self._int_()
                 self.name_last_node('value')
                 self._define(['type', 'value'], [])
@@ -2994,8 +2995,10 @@ class iosParser(Parser):
                 self._token('routing-type')
                 self.name_last_node('type')
                 with self._optional():
+                    self._WS_()
                     self._int_()
                     self.name_last_node('value')
+                    self._define(['value'], [])
                 self._define(['type', 'value'], [])
             with self._option():
                 self._token('routing')
-- 
2.43.0


From 2419f0fb998fba317676468a942ca9444a225529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 21/39] fix: keep IOS static routes with a distance or other
 trailing parameters

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index d1cd1de..8dba9c2 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -172,7 +172,7 @@ ip_command
 
 ip_route
 	= prefix:`None` "profile" NL
-	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) NL
+	| prefix:ip4 WS mask:ip4 WS gw:(ip4|acl_interface_id) [WS TOEOL] NL
 	;
 
 ip_access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 2a4c1e6..133c50e 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3168,6 +3168,9 @@ class iosParser(Parser):
                             '<acl_interface_id> <ip4>'
                         )
                 self.name_last_node('gw')
+                with self._optional():
+                    self._WS_()
+                    self._TOEOL_()
                 self._NL_()
                 self._define(['gw', 'mask', 'prefix'], [])
             self._error(
-- 
2.43.0


From 360d646c2c4fdae77d3c4e18755859e4d4032750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:19 +0000
Subject: [PATCH 22/39] fix: attach access-list remarks to the rules of their
 own list only

---
 lib/acltk/fwsm.bnf         | 2 +-
 lib/acltk/fwsm.py          | 3 ++-
 lib/acltk/fwsmSemantics.py | 3 ++-
 lib/acltk/ios.bnf          | 2 +-
 lib/acltk/ios.py           | 3 ++-
 lib/acltk/iosSemantics.py  | 6 ++++--
 6 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index 3e25691..d4b027a 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -80,7 +80,7 @@ access_list
 
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' SP remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' SP remark:remark NL
 	;
 
 access_group
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index a2dfd85..f8e30c5 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3303,13 +3303,14 @@ class fwsmParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._SP_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_group_(self):
diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index a984009..83ef8c6 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -35,7 +35,8 @@ class fwsmSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
 
diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 8dba9c2..2dff747 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -265,7 +265,7 @@ access_list_ip_standard
 	;
 
 access_list_remark
-	= 'access-list' WS acl_id WS 'remark' WS remark:remark NL
+	= 'access-list' WS id:acl_id WS 'remark' WS remark:remark NL
 	;
 
 access_list
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 133c50e..b507186 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3787,13 +3787,14 @@ class iosParser(Parser):
         self._token('access-list')
         self._WS_()
         self._acl_id_()
+        self.name_last_node('id')
         self._WS_()
         self._token('remark')
         self._WS_()
         self._remark_()
         self.name_last_node('remark')
         self._NL_()
-        self._define(['remark'], [])
+        self._define(['id', 'remark'], [])
 
     @tatsumasu()
     def _access_list_(self):
diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 88a42ea..1c602f6 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -124,7 +124,8 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_standard_rule(ast)
@@ -148,7 +149,8 @@ class iosSemantics(aclSemantics):
         if ast.remark:
             remark = []
             for i in ast.remark:
-                remark.append(i.remark)
+                if i.id == ast.id:
+                    remark.append(i.remark)
             del ast["remark"]
             ast["remark"] = remark
         return self.access_list_ip_extended_rule(ast)
-- 
2.43.0


From aa1679644e4fdcee54474822ec725d5c386699f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:48 +0000
Subject: [PATCH 23/39] fix: keep any addresses when a network group is
 collapsed

---
 lib/acltk/aclObjects.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 6d70ed0..ddad313 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -627,8 +627,9 @@ class NetworkGroup(_Group):
         return obj._collapse()
 
     def _collapse(self):
-        # FIXME - remove NetworkAny
-        if any(filter(lambda o: isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)):
+        # NetworkAny can not be collapsed and is kept as is
+        anys = list(filter(lambda o: isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects))
+        if anys:
             self.objects = list(
                 filter(lambda o: not isinstance(o, (NetworkAny, NetworkAny4, NetworkAny6)), self.objects)
             )
@@ -648,6 +649,7 @@ class NetworkGroup(_Group):
             else:
                 h_ = NetworkHost(h.network_address)
             self.add(h_)
+        self.objects.extend(anys)
         return self
 
     @staticmethod
-- 
2.43.0


From 50d70f8f3b19bef331af56ccdc8ba4e1e52a4480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 24/39] fix: collapse IPv6 networks and groups of both families

---
 lib/acltk/aclObjects.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index ddad313..186d00a 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -641,14 +641,16 @@ class NetworkGroup(_Group):
 
         self.objects.clear()
 
-        for h in ipaddress.collapse_addresses(addresses):
-            if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
-                raise ValueError(f"unexpected type {h}")
-            if h.num_addresses > 1:
-                h_ = Network(h.network_address, h.netmask)
-            else:
-                h_ = NetworkHost(h.network_address)
-            self.add(h_)
+        # IPv4 and IPv6 can not be collapsed together
+        for version in (4, 6):
+            for h in ipaddress.collapse_addresses(filter(lambda a: a.version == version, addresses)):
+                if not isinstance(h, (ipaddress.IPv4Network, ipaddress.IPv6Network)):
+                    raise ValueError(f"unexpected type {h}")
+                if h.num_addresses > 1:
+                    h_ = Network(h.network_address, h.prefixlen)
+                else:
+                    h_ = NetworkHost(h.network_address)
+                self.add(h_)
         self.objects.extend(anys)
         return self
 
-- 
2.43.0


From 544019e18443514aa4f300c033c3f8eadc5750f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:33 +0000
Subject: [PATCH 25/39] fix: accept a trailing blank on an extended access-list
 line

---
 lib/acltk/aclSemantics.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 2c754c7..6552209 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -358,6 +358,9 @@ class aclSemantics:
     def acl_options(self, ast):
         r = {}
         for i in ast:
+            # trailing blank
+            if i is None:
+                continue
             assert i.type is None or i.type in frozenset(
                 ["log", "time-range", "inactive"]
             ), f"option {i.type} is unknown"
-- 
2.43.0


From 84c8041fa468d91012a20cac4da7901e4d1900ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:39 +0000
Subject: [PATCH 26/39] fix: order the service objects of dynamic NAT as mapped
 then real

---
 lib/acltk/fwsmSemantics.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsmSemantics.py b/lib/acltk/fwsmSemantics.py
index 83ef8c6..57b8bd7 100644
--- a/lib/acltk/fwsmSemantics.py
+++ b/lib/acltk/fwsmSemantics.py
@@ -114,8 +114,9 @@ class fwsmSemantics(aclSemantics):
                     raise ValueError("unexpected")
                 # For identity port translation, simply use the same service object for both the real and mapped ports (source and / or destination ports, depending on your configuration).
             elif ast.src["mapped"].type == "dynamic":
-                real["service"] = ast.service[2]
-                mapped["service"] = ast.service[4]
+                # dynamic NAT translates the destination port only: service mapped_dest_svc_obj real_dest_svc_obj
+                mapped["service"] = ast.service[2]
+                real["service"] = ast.service[4]
             else:
                 raise ValueError(ast.src["mapped"].type)
 
-- 
2.43.0


From 0fc1c3cf95576e2858211fc8d98fe3543b4cac01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:30 +0000
Subject: [PATCH 27/39] fix: do not take the next option as the word of log on
 an IOS access list

---
 lib/acltk/ios.bnf |  4 ++--
 lib/acltk/ios.py  | 26 ++++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 2dff747..91e3756 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -230,8 +230,8 @@ ip_access_list_extended_rule_option
 	| type:"tos" WS value:identifier
 	| type:"time-range" WS value:identifier
 	| type:"fragments"
-	| type:"log-input" [WS value:identifier]
-	| type:"log" [WS value:identifier]
+	| type:"log-input" [WS !(ip_access_list_extended_rule_option (WS|NL)) value:identifier]
+	| type:"log" [WS !(ip_access_list_extended_rule_option (WS|NL)) value:identifier]
 	| type:"established"
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index b507186..b8eb582 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -3446,6 +3446,19 @@ class iosParser(Parser):
                 self.name_last_node('type')
                 with self._optional():
                     self._WS_()
+                    with self._ifnot():
+                        with self._group():
+                            self._ip_access_list_extended_rule_option_()
+                            with self._group():
+                                with self._choice():
+                                    with self._option():
+                                        self._WS_()
+                                    with self._option():
+                                        self._NL_()
+                                    self._error(
+                                        'expecting one of: '
+                                        '<NL> <WS>'
+                                    )
                     self._identifier_()
                     self.name_last_node('value')
                     self._define(['value'], [])
@@ -3455,6 +3468,19 @@ class iosParser(Parser):
                 self.name_last_node('type')
                 with self._optional():
                     self._WS_()
+                    with self._ifnot():
+                        with self._group():
+                            self._ip_access_list_extended_rule_option_()
+                            with self._group():
+                                with self._choice():
+                                    with self._option():
+                                        self._WS_()
+                                    with self._option():
+                                        self._NL_()
+                                    self._error(
+                                        'expecting one of: '
+                                        '<NL> <WS>'
+                                    )
                     self._identifier_()
                     self.name_last_node('value')
                     self._define(['value'], [])
-- 
2.43.0


From 412d16e725808677465430b1b447c2a118955253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:51 +0000
Subject: [PATCH 28/39] fix: do not drop an access-group of an unknown
 interface

---
 lib/acltk/aclObjects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 186d00a..022ecf3 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1254,6 +1254,8 @@ class ACLConfig:
                         j.access_groups[i.direction] = i
                         self.access_groups[i.name].append(i)
                         break
+                else:
+                    raise ValueError(f"access-group {i.name} on unknown interface {i.iface}")
             elif isinstance(i, NATObject):
                 position = 3 if ("after-auto", "after-object") & i.options.keys() else 1
                 self.nat[position].append(i)
-- 
2.43.0


From 74a613df8e29dce2eb12b71f2456b8894564a18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:08 +0000
Subject: [PATCH 29/39] fix: refer to the latest definition of a service object

---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 6552209..36a01f3 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -149,7 +149,7 @@ class aclSemantics:
         if nat is None and "nat" in ast:
             nat = ast.nat
 
-        if ast.name not in groups:
+        if ast.type == "service" or ast.name not in groups:
             self._learn(ast.name, p)
 
         if nat:
-- 
2.43.0


From 4a8cd05cde6d0fa1c8b74eeacff04706a11322b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:59 +0000
Subject: [PATCH 30/39] fix: a name beginning with any- is not the keyword any

---
 lib/acltk/acl.bnf |  4 ++--
 lib/acltk/fwsm.py | 16 ++++++++++++++++
 lib/acltk/ios.py  | 16 ++++++++++++++++
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 0407cb4..692f691 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -163,7 +163,7 @@ acl_internal
 acl_host
 	= type:("host"|"ip") WS address:(acl_name|ip4|ip6)
 	| type:"interface" WS name:identifier
-	| type:("any"|"any4"|"any6")
+	| type:("any"|"any4"|"any6") &(WS|NL)
 	| type:"object" WS object:acl_object_network
 	| type:"object-group" WS group:acl_object_group_network
 	| type:`network` address:(acl_name_ws|ip4) WS netmask:ip4
@@ -279,7 +279,7 @@ network_object_nat
 	;
 
 nat_interfaces
-	= "(" real:("any"|acl_interface_id) "," mapped:("any"|acl_interface_id) ")"
+	= "(" real:("any" &","|acl_interface_id) "," mapped:("any" &")"|acl_interface_id) ")"
 	;
 
 network_nat_mapped
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index f8e30c5..16f18b0 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -578,6 +578,18 @@ class fwsmParser(Parser):
                             "'any' 'any4' 'any6'"
                         )
                 self.name_last_node('type')
+                with self._if():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._WS_()
+                            with self._option():
+                                self._NL_()
+                            self._error(
+                                'expecting one of: '
+                                '<NL> <WS>'
+                            )
+                self._define(['type'], [])
             with self._option():
                 self._token('object')
                 self.name_last_node('type')
@@ -1057,6 +1069,8 @@ class fwsmParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(',')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
@@ -1069,6 +1083,8 @@ class fwsmParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(')')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index b8eb582..068ec82 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -578,6 +578,18 @@ class iosParser(Parser):
                             "'any' 'any4' 'any6'"
                         )
                 self.name_last_node('type')
+                with self._if():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._WS_()
+                            with self._option():
+                                self._NL_()
+                            self._error(
+                                'expecting one of: '
+                                '<NL> <WS>'
+                            )
+                self._define(['type'], [])
             with self._option():
                 self._token('object')
                 self.name_last_node('type')
@@ -1057,6 +1069,8 @@ class iosParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(',')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
@@ -1069,6 +1083,8 @@ class iosParser(Parser):
             with self._choice():
                 with self._option():
                     self._token('any')
+                    with self._if():
+                        self._token(')')
                 with self._option():
                     self._acl_interface_id_()
                 self._error(
-- 
2.43.0


From d4ea6130dd67c9d979f069e5650538b8dfeca1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:30 +0000
Subject: [PATCH 31/39] fix: an IOS dhcp pool does not swallow the commands
 after it

---
 lib/acltk/ios.bnf | 2 +-
 lib/acltk/ios.py  | 8 +++-----
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index 91e3756..e8da674 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -412,7 +412,7 @@ ip_ignored
 	| "nat" TOEOL NL
 	| "subnet-zero" NL
 	| "dhcp excluded-address" TOEOL NL
-	| "dhcp pool" {?/[^(!|\n)]*/? NL}*
+	| "dhcp pool" TOEOL NL ignored_indent
 	| "tcp" TOEOL NL
 	| "scp" TOEOL NL
 	| "ssh" TOEOL NL ignored_indent
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 068ec82..866767d 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -4540,11 +4540,9 @@ class iosParser(Parser):
                 self._NL_()
             with self._option():
                 self._token('dhcp pool')
-
-                def block0():
-                    self._pattern('[^(!|\\n)]*')
-                    self._NL_()
-                self._closure(block0)
+                self._TOEOL_()
+                self._NL_()
+                self._ignored_indent_()
             with self._option():
                 self._token('tcp')
                 self._TOEOL_()
-- 
2.43.0


From 6c5059313526cda9c6fe9fc166512e8d1ff419d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:13 +0000
Subject: [PATCH 32/39] fix: the direction of an access-group is in or out

---
 lib/acltk/fwsm.bnf |  2 +-
 lib/acltk/fwsm.py  | 11 ++++++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/lib/acltk/fwsm.bnf b/lib/acltk/fwsm.bnf
index d4b027a..b800d97 100644
--- a/lib/acltk/fwsm.bnf
+++ b/lib/acltk/fwsm.bnf
@@ -84,7 +84,7 @@ access_list_remark
 	;
 
 access_group
-	= "access-group" WS name:obj_name WS direction:obj_name WS type:"interface" WS iface:obj_name [WS] NL
+	= "access-group" WS name:obj_name WS direction:("in"|"out") WS type:"interface" WS iface:obj_name [WS] NL
 	| "access-group" WS name:obj_name WS type:"global" [WS] NL
 	;
 
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index 16f18b0..b8e5e0c 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -3337,7 +3337,16 @@ class fwsmParser(Parser):
                 self._obj_name_()
                 self.name_last_node('name')
                 self._WS_()
-                self._obj_name_()
+                with self._group():
+                    with self._choice():
+                        with self._option():
+                            self._token('in')
+                        with self._option():
+                            self._token('out')
+                        self._error(
+                            'expecting one of: '
+                            "'in' 'out'"
+                        )
                 self.name_last_node('direction')
                 self._WS_()
                 self._token('interface')
-- 
2.43.0


From dd435529d7fe4d6a3dc7eadf74f13523cfad2e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:10 +0000
Subject: [PATCH 33/39] fix: a malformed access list binding of an IOS
 interface was silently ignored

---
 lib/acltk/ios.bnf |  2 +-
 lib/acltk/ios.py  | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/lib/acltk/ios.bnf b/lib/acltk/ios.bnf
index e8da674..16239b2 100644
--- a/lib/acltk/ios.bnf
+++ b/lib/acltk/ios.bnf
@@ -49,7 +49,7 @@ interface_detail
 	| type:("ipv6" WS "address") WS value:(ip6 ["/" int]) [WS "link-local"] [WS] NL
 	| type:("ipv6" WS "traffic-filter") WS value:(obj_name WS ("in"|"out")) [WS] NL
 	| type:"switchport" WS value:switchport_cmd [WS] NL
-	| type:`None` TOEOL NL
+	| type:`None` !("ip" WS "access-group"|"ipv6" WS "traffic-filter") TOEOL NL
 	| type:`None` ()
 	;
 
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index 866767d..d5aa66d 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -2790,6 +2790,21 @@ class iosParser(Parser):
             with self._option():
                 self._constant('None')
                 self.name_last_node('type')
+                with self._ifnot():
+                    with self._group():
+                        with self._choice():
+                            with self._option():
+                                self._token('ip')
+                                self._WS_()
+                                self._token('access-group')
+                            with self._option():
+                                self._token('ipv6')
+                                self._WS_()
+                                self._token('traffic-filter')
+                            self._error(
+                                'expecting one of: '
+                                "'ip' 'ipv6'"
+                            )
                 self._TOEOL_()
                 self._NL_()
                 self._define(['type'], [])
@@ -2800,8 +2815,7 @@ class iosParser(Parser):
                 self._define(['type'], [])
             self._error(
                 'expecting one of: '
-                "'\\n' '\\r' 'description' 'ip' 'ipv6'"
-                "'switchport' <NL> <TOEOL> [^\\n]*"
+                "'description' 'ip' 'ipv6' 'switchport'"
             )
 
     @tatsumasu()
-- 
2.43.0


From 265bf8dd19d14ef66d69d4f862beb391fd9e991a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 34/39] fix: protocol numbers of a protocol group are checked

---
 lib/acltk/aclSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index 36a01f3..a6db7f8 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -294,7 +294,7 @@ class aclSemantics:
     def protocol_group_object(self, ast):
         assert ast.type is not None, "object type is None"
         if ast.type == "protocol-object":
-            return Protocol(ast.name)
+            return self.protocol_int(ast.name) if ast.name.isdigit() else Protocol(ast.name)
         elif ast.type == "group-object":
             return ast.group
 
-- 
2.43.0


From 2852c5addd7223974cfbd05acf9e4f7ca12f88cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:16 +0000
Subject: [PATCH 35/39] fix: pfSense rules name interfaces by their element,
 not by a description that may name another

---
 lib/acltk/pfsenseSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/pfsenseSemantics.py b/lib/acltk/pfsenseSemantics.py
index 15d37ac..1cf2904 100644
--- a/lib/acltk/pfsenseSemantics.py
+++ b/lib/acltk/pfsenseSemantics.py
@@ -109,7 +109,7 @@ class pfsenseParser(aclParser):
             ast.append(obj)
 
             self.interfaces[obj.alias] = obj
-            self.interface_map[obj.description] = obj.alias
+            self.interface_map[i.tag] = obj.alias
 
         return ast
 
-- 
2.43.0


From 96c6c8bb2fe3021773ae2f01dfe3c97985c25900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:53 +0000
Subject: [PATCH 36/39] fix: the numbered access list action reads a name its
 rule cannot produce

---
 lib/acltk/iosSemantics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/iosSemantics.py b/lib/acltk/iosSemantics.py
index 1c602f6..8df23c3 100644
--- a/lib/acltk/iosSemantics.py
+++ b/lib/acltk/iosSemantics.py
@@ -182,7 +182,7 @@ class iosSemantics(aclSemantics):
                     x = obj[i]
                     del obj[i]
                     obj[i] = ACLNode(x)
-            r.add(ACLRule(extended=ast.type, id=ast.name, **obj))
+            r.add(ACLRule(id=ast.name, **obj))
         return r
 
     def ipv6_access_list_seq(self, ast):
-- 
2.43.0


From 36ad8183416cb4026fbccec9e0e5fb7e15f35ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:42 +0000
Subject: [PATCH 37/39] fix: periodic time ranges accept several days, and keep
 the closing day itself

---
 lib/acltk/acl.bnf |  2 +-
 lib/acltk/fwsm.py | 19 +++++++++++++++----
 lib/acltk/ios.py  | 19 +++++++++++++++----
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/lib/acltk/acl.bnf b/lib/acltk/acl.bnf
index 692f691..90cf0e0 100644
--- a/lib/acltk/acl.bnf
+++ b/lib/acltk/acl.bnf
@@ -447,7 +447,7 @@ timedate
 	;
 
 time_range_object
-	= type:"periodic" WS days:{day_of_the_week}+ WS start:time WS "to" WS edays:[day_of_the_week WS] end:time NL
+	= type:"periodic" WS days+:day_of_the_week {WS days+:day_of_the_week}* WS start:time WS "to" WS [edays:day_of_the_week WS] end:time NL
 	| type:"periodic" WS days+:("weekdays"|"weekend"|"daily") WS start:time WS "to" WS end:time NL
 	| type:"absolute" [WS "start" WS start:timedate] [WS "end" WS end:timedate] NL
 	| type:"no" WS TOEOL NL
diff --git a/lib/acltk/fwsm.py b/lib/acltk/fwsm.py
index b8e5e0c..cc6008e 100644
--- a/lib/acltk/fwsm.py
+++ b/lib/acltk/fwsm.py
@@ -1969,11 +1969,18 @@ class fwsmParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -1982,12 +1989,16 @@ class fwsmParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
diff --git a/lib/acltk/ios.py b/lib/acltk/ios.py
index d5aa66d..0245227 100644
--- a/lib/acltk/ios.py
+++ b/lib/acltk/ios.py
@@ -1994,11 +1994,18 @@ class iosParser(Parser):
                 self._token('periodic')
                 self.name_last_node('type')
                 self._WS_()
+                self._day_of_the_week_()
+                self.add_last_node_to_name('days')
 
                 def block0():
+                    self._WS_()
                     self._day_of_the_week_()
-                self._positive_closure(block0)
-                self.name_last_node('days')
+                    self.add_last_node_to_name('days')
+                    self._define(
+                        [],
+                        ['days'],
+                    )
+                self._closure(block0)
                 self._WS_()
                 self._time_()
                 self.name_last_node('start')
@@ -2007,12 +2014,16 @@ class iosParser(Parser):
                 self._WS_()
                 with self._optional():
                     self._day_of_the_week_()
+                    self.name_last_node('edays')
                     self._WS_()
-                self.name_last_node('edays')
+                    self._define(['edays'], [])
                 self._time_()
                 self.name_last_node('end')
                 self._NL_()
-                self._define(['days', 'edays', 'end', 'start', 'type'], [])
+                self._define(
+                    ['edays', 'end', 'start', 'type'],
+                    ['days'],
+                )
             with self._option():
                 self._token('periodic')
                 self.name_last_node('type')
-- 
2.43.0


From c87ca4168300d6a04dd985fdc846e61ae49524d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:49 +0000
Subject: [PATCH 38/39] fix: a no line in a time range is skipped instead of
 raising

---
 lib/acltk/aclSemantics.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/acltk/aclSemantics.py b/lib/acltk/aclSemantics.py
index a6db7f8..1168db4 100644
--- a/lib/acltk/aclSemantics.py
+++ b/lib/acltk/aclSemantics.py
@@ -122,6 +122,8 @@ class aclSemantics:
         t = TimeRange(ast.name)
         self._learn(ast.name, t)
         for i in ast.objects:
+            if i is None:
+                continue
             t.add(i)
         return t
 
-- 
2.43.0


From e2417343d1642f70174c1ac321d2dc82a2aee0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:25 +0000
Subject: [PATCH 39/39] fix: a configuration with CR LF line ends keeps no CR
 in texts

---
 lib/acltk/aclObjects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/acltk/aclObjects.py b/lib/acltk/aclObjects.py
index 022ecf3..2e53c7c 100644
--- a/lib/acltk/aclObjects.py
+++ b/lib/acltk/aclObjects.py
@@ -1288,7 +1288,7 @@ class ACLConfig:
         assert isinstance(_data, str), "unexpected type {} or class {}".format(
             type(_data), _data.__class__.__qualname__
         )
-        data = _data + "\n"
+        data = _data.replace("\r\n", "\n") + "\n"
         return cls._parse(data, filename, options)
 
     @classmethod
-- 
2.43.0

