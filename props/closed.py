"""Obligations over malformed text: C19. Lines that mean something, with a token missing, doubled, swapped, replaced or added."""
import re

from .ios import list6, next_, nlist, numbered, numext
from .text import *

GARBAGE = lambda: slot("gw", ("zz[a-y]{1,6}", "Qz[A-Za-z]{2,5}"))
VALUES = {
    "@h": lambda: ip4("h"), "@d": lambda: ip4("d"), "@s": lambda: ip6("s"), "@p": lambda: port("p"), "@q": lambda: port("q"),
    "@lo": lambda: low("lo"), "@hi": lambda: high("hi"), "@n": lambda: byte("n"),
}
ASA_PRE = ["name 10.9.9.9 NAMED", "interface eth0\n nameif inside", "interface eth1\n nameif outside",
           "time-range TR\n absolute start 10:30 1 March 2020", "object network OBJ\n host 10.1.1.1", "object network OBK\n host 10.1.1.2",
           "object service SVC\n service tcp destination eq 80 ", "object service SVM\n service tcp destination eq 81 ",
           "object-group network GRP\n network-object host 10.1.1.3", "object-group service SG\n service-object tcp destination eq 80 ",
           "object-group service PG tcp\n port-object eq 80", "object-group protocol PR\n protocol-object tcp",
           "object-group icmp-type IG\n icmp-object echo"]
IOS_PRE = ["interface eth0\n ip address 10.8.8.1 255.255.255.0"]

# name -> dialect, text (lines that are not mutated start with =)
BASES = {
    "rule": ("asa", "access-list A extended permit tcp host @h eq @p @d 255.255.255.0 range 20 30 log"),
    "rule of objects": ("asa", "access-list A extended deny object SVC object OBJ object-group GRP log inactive"),
    "rule of groups": ("asa", "access-list A extended permit object-group PR object-group GRP any4 time-range TR"),
    "rule of port groups": ("asa", "access-list A extended permit udp any object-group PG interface inside object-group PG"),
    "rule of icmp": ("asa", "access-list A extended permit icmp any6 host @d unreachable 3"),
    "rule of an icmp group": ("asa", "access-list A extended permit icmp any any object-group IG"),
    "rule of a prefix": ("asa", "access-list A extended permit ip @s/64 NAMED 255.255.255.255"),
    "rule of a protocol number": ("asa", "access-list A extended permit @n any any"),
    "logged rule": ("asa", "access-list A extended permit tcp any any neq @p log 5 interval 60 time-range TR"),
    "logged standard rule": ("asa", "access-list A standard permit any4 log interval 300"),
    "ios logged entry": ("ios", "ip access-list extended A\n permit udp any lt @p any log"),
    "periodic from day to day": ("asa", "time-range X\n periodic Monday 8:00 to Friday 17:00"),
    "service group of icmp": ("asa", "object-group service X\n service-object icmp echo\n service-object udp"),
    "auto nat of a network": ("asa", "object network X\n subnet @h 255.255.0.0\n nat (inside,outside) static interface dns"),
    "standard rule": ("asa", "access-list A standard permit host @h"),
    "standard rule of a network": ("asa", "access-list A standard deny @h 255.255.0.0"),
    "webtype rule": ("asa", "access-list A webtype permit url https://a.b/c log default"),
    "webtype tcp rule": ("asa", "access-list A webtype deny tcp host @h eq 80"),
    "binding": ("asa", "access-group A in interface inside"),
    "network object of a host": ("asa", "object network X\n host @h"),
    "network object of a subnet": ("asa", "object network X\n subnet @h 255.255.0.0"),
    "network object of a range": ("asa", "object network X\n range 10.0.0.1 10.0.0.9"),
    "network object of a name": ("asa", "object network X\n fqdn v4 www.a.org"),
    "service object": ("asa", "object service X\n service tcp source eq @p destination gt @q "),
    "service object of icmp": ("asa", "object service X\n service icmp echo 3"),
    "network group": ("asa", "object-group network X\n network-object host @h\n network-object object OBJ\n network-object @d 255.255.255.0\n group-object GRP"),
    "service group": ("asa", "object-group service X\n service-object tcp source eq @p destination range 20 30\n service-object object SVC\n group-object SG"),
    "port group": ("asa", "object-group service X tcp\n port-object eq @p\n port-object range 20 30"),
    "protocol group": ("asa", "object-group protocol X\n protocol-object tcp\n group-object PR"),
    "icmp group": ("asa", "object-group icmp-type X\n icmp-object echo\n group-object IG"),
    "name": ("asa", "name @h NEW"),
    "auto nat": ("asa", "object network X\n host @h\n nat (inside,outside) static @d service tcp @p @q"),
    "dynamic auto nat": ("asa", "object network X\n host @h\n nat (inside,outside) dynamic OBJ interface"),
    "twice nat": ("asa", "nat (inside,outside) source static OBJ OBK destination static GRP OBJ service SVC SVM no-proxy-arp"),
    "dynamic nat": ("asa", "nat (inside,outside) after-auto source dynamic OBJ interface destination static OBK OBJ"),
    "time range": ("asa", "time-range X\n absolute start 10:30 1 March 2020 end 11:45 2 April 2021\n periodic weekdays 8:00 to 17:00"),
    "ios entry": ("ios", "ip access-list extended A\n permit tcp host @h eq @p @d 0.0.0.255 range 20 30 log"),
    "ios entry of icmp": ("ios", "ip access-list extended A\n deny icmp any host @d echo"),
    "ios standard entry": ("ios", "ip access-list standard A\n permit @h 0.0.0.255"),
    "ios standard host": ("ios", "ip access-list standard A\n deny host @h log"),
    "ios numbered entry": ("ios", "access-list 101 permit udp any eq @p host @d gt @q established"),
    "ios numbered standard": ("ios", "access-list 5 permit @h 0.0.0.255"),
    "ios ipv6 entry": ("ios", "ipv6 access-list A\n permit tcp 2001:db8::/32 eq @p host 2001:db8::5 sequence 20"),
    "ios interface": ("ios", "interface eth5\n ip address @h 255.255.255.0\n ip access-group A in"),
    "ios network group": ("ios", "object-group network X\n host @h\n @d 255.255.255.0\n any"),
    "ios service group": ("ios", "object-group service X\n tcp source eq @p destination eq @q\n icmp echo"),
}


# what a mutation leaves is a form of its own (its meaning is decided by the properties of its kind), or depends on values
VALID = {
    'logged rule': ['garbage for A (1)', 'up to neq (7)', 'log twice (9)', 'up to log (9)', 'without 5 (10)', '5 twice (10)', 'up to 5 (10)',
                    'up to interval (11)', 'up to time-range (13)'],
    'logged standard rule': ['up to log (5)'],
    'ios logged entry': ['line 0 garbage for A (3)', 'line 1 without log (6)', 'line 1 log twice (6)', 'line 1 garbage after'],
    'periodic from day to day': ['line 0 garbage for X (1)', 'line 1 Monday twice (1)', 'line 1 without Friday (4)'],
    'service group of icmp': ['line 0 garbage for X (2)', 'line 1 without echo (2)'],
    'auto nat of a network': ['line 0 garbage for X (2)', 'line 1 @h and 255.255.0.0 swapped (1)', 'line 2 without dns (4)', 'line 2 dns twice (4)'],
    'rule': ['garbage for A (1)', '@d and 255.255.255.0 swapped (9)', 'up to range (11)', 'without log (14)', 'log twice (14)'],
    'rule of objects': ['garbage for A (1)', 'without log (10)', 'log twice (10)', 'log and inactive swapped (10)', 'up to log (10)',
                        'without inactive (11)', 'inactive twice (11)'],
    'rule of groups': ['garbage for A (1)', 'up to time-range (9)'],
    'rule of port groups': ['garbage for A (1)', 'garbage for inside (9)', 'up to object-group (10)'],
    'rule of icmp': ['garbage for A (1)', 'without unreachable (8)', 'up to unreachable (8)', 'without 3 (9)'],
    'rule of an icmp group': ['garbage for A (1)', 'up to object-group (7)'],
    'rule of a prefix': ['garbage for A (1)'],
    'rule of a protocol number': ['garbage for A (1)'],
    'standard rule': ['garbage for A (1)'],
    'standard rule of a network': ['garbage for A (1)', '@h and 255.255.0.0 swapped (4)'],
    'webtype rule': ['garbage for A (1)', 'garbage for https://a.b/c (5)', 'log twice (6)', 'up to log (6)', 'without default (7)',
                     'default twice (7)'],
    'webtype tcp rule': ['garbage for A (1)', 'up to eq (7)'],
    'binding': ['garbage for A (1)'],
    'network object of a host': ['line 0 garbage for X (2)'],
    'network object of a subnet': ['line 0 garbage for X (2)', 'line 1 @h and 255.255.0.0 swapped (1)'],
    'network object of a range': ['line 0 garbage for X (2)'],
    'network object of a name': ['line 0 garbage for X (2)', 'line 1 without v4 (1)', 'line 1 without www.a.org (2)',
                                 'line 1 garbage for www.a.org (2)'],
    'service object': ['line 0 garbage for X (2)', 'line 1 up to source (2)', 'line 1 up to destination (5)'],
    'service object of icmp': ['line 0 garbage for X (2)', 'line 1 without echo (2)', 'line 1 up to echo (2)', 'line 1 without 3 (3)'],
    'network group': ['line 0 garbage for X (2)', 'line 3 @d and 255.255.255.0 swapped (1)'],
    'service group': ['line 0 garbage for X (2)', 'line 1 up to source (2)', 'line 1 up to destination (5)'],
    'port group': ['line 0 garbage for X (2)'],
    'protocol group': ['line 0 garbage for X (2)', 'line 1 garbage for tcp (1)'],
    'icmp group': ['line 0 garbage for X (2)'],
    'name': ['garbage for NEW (2)'],
    'auto nat': ['line 0 garbage for X (2)', 'line 2 up to service (4)', 'line 2 @p and @q swapped (6)'],
    'dynamic auto nat': ['line 0 garbage for X (2)', 'line 2 without OBJ (3)', 'line 2 without interface (4)'],
    'twice nat': ['OBJ and OBK swapped (4)', 'up to destination (6)', 'GRP and OBJ swapped (8)', 'up to service (10)',
                  'SVC and SVM swapped (11)', 'without no-proxy-arp (13)', 'no-proxy-arp twice (13)'],
    'dynamic nat': ['without after-auto (2)', 'OBJ twice (5)', 'up to destination (7)', 'OBK and OBJ swapped (9)'],
    'time range': ['line 0 garbage for X (1)', 'line 1 up to start (1)', 'line 1 up to end (6)'],
    'ios entry': ['line 0 garbage for A (3)', 'line 1 without host (2)', 'line 1 without @d (6)', 'line 1 @d and 0.0.0.255 swapped (6)',
                  'line 1 without 0.0.0.255 (7)', 'line 1 up to 0.0.0.255 (7)', 'line 1 up to range (8)', 'line 1 without log (11)',
                  'line 1 log twice (11)', 'line 1 garbage after'],
    'ios entry of icmp': ['line 0 garbage for A (3)', 'line 1 without host (3)', 'line 1 without echo (5)'],
    'ios standard entry': ['line 0 garbage for A (3)', 'line 1 without @h (1)', 'line 1 @h and 0.0.0.255 swapped (1)',
                           'line 1 without 0.0.0.255 (2)'],
    'ios standard host': ['line 0 garbage for A (3)', 'line 1 without host (1)', 'line 1 without log (3)', 'line 1 log twice (3)',
                          'line 1 garbage after'],
    'ios numbered entry': ['up to gt (9)', 'without established (11)', 'established twice (11)'],
    'ios numbered standard': ['without @h (3)', '@h and 0.0.0.255 swapped (3)', 'without 0.0.0.255 (4)'],
    'ios ipv6 entry': ['line 0 ipv6 twice (0)'],
    'ios interface': ['line 0 garbage for eth5 (1)', 'line 2 garbage for A (2)'],
    'ios service group': ['line 0 garbage for X (2)', 'line 1 up to source (1)', 'line 1 up to destination (4)', 'line 2 without echo (1)'],
}
OTHER_DETAIL = re.compile(r"line 1 |line 2 .*\((0|1)\)$")      # of an interface: other details are not looked at

# values
BAD_IP4 = ("256.1.1.1", "1.256.1.1", "1.1.1.999", "1.2.3", "1.2.3.", ".1.2.3", "1.2.3.4.5", "1..2.3", "1.2.3.4a", "1.2.3.-4", "1,2,3,4", "1.2.3.4/24",
           ("2[6-9][0-9][.][1-9][.][1-9][.][1-9]",), ("[1-9][0-9][.][1-9][.][3-9][0-9][0-9][.][1-9]",))
BAD_MASK = ("255.0.255.0", "255.255.255.256", "255.255.255", "0.255.0.0", "254.255.0.0", "255.255.255.253", "33")
BAD_IP6 = ("2001:::1", "2001:db8::g", "2001::1::2", "1:2:3:4:5:6:7", "1:2:3:4:5:6:7:8:9", "20011::", ":1")
BAD_PFX6 = ("129", "-1", "a", "64a")
VALUE_PLACES = {
    "host": ("asa", "access-list A extended permit ip host % any", BAD_IP4), "net": ("asa", "access-list A extended permit ip any % 255.255.255.0", BAD_IP4),
    "mask": ("asa", "access-list A extended permit tcp any 10.0.0.0 %", BAD_MASK),
    "mask of a source": ("asa", "access-list A extended permit tcp 10.0.0.0 % any eq 80", BAD_MASK),
    "standard host": ("asa", "access-list A standard permit host %", BAD_IP4), "standard mask": ("asa", "access-list A standard permit 10.0.0.0 %", BAD_MASK),
    "webtype host": ("asa", "access-list A webtype permit tcp host %", BAD_IP4),
    "object host": ("asa", "object network X\n host %", BAD_IP4), "object subnet": ("asa", "object network X\n subnet % 255.255.0.0", BAD_IP4),
    "object mask": ("asa", "object network X\n subnet 10.0.0.0 %", BAD_MASK),
    "range start": ("asa", "object network X\n range % 250.0.0.9", BAD_IP4 + ("250.0.0.10", "251.0.0.1", "250.0.1.0", "2001:db8::1")),
    "range end": ("asa", "object network X\n range 10.0.0.5 %", BAD_IP4 + ("10.0.0.4", "9.255.255.255", "2001:db8::1")),
    "member host": ("asa", "object-group network X\n network-object host %", BAD_IP4), "member net": ("asa", "object-group network X\n network-object % 255.255.255.0", BAD_IP4),
    "member mask": ("asa", "object-group network X\n network-object 10.0.0.0 %", BAD_MASK), "name": ("asa", "name % N", BAD_IP4),
    "host6": ("asa", "access-list A extended permit ip host % any", BAD_IP6), "net6": ("asa", "access-list A extended permit ip any %/64", BAD_IP6),
    "prefix": ("asa", "access-list A extended permit ip any 2001:db8::/%", BAD_PFX6), "object host6": ("asa", "object network X\n host %", BAD_IP6),
    "nat address": ("asa", "object network X\n host 10.0.0.1\n nat (inside,outside) static %", BAD_IP4),
    "ios host": ("ios", "ip access-list extended A\n permit ip host % any", BAD_IP4), "ios net": ("ios", "ip access-list extended A\n permit ip any % 0.0.0.255", BAD_IP4),
    "ios wildcard": ("ios", "ip access-list extended A\n permit ip any 10.0.0.0 %", ("0.0.0.256", "0.0.0", "255", "0.0.0.255.0", ("0[.]0[.]0[.][3-9][0-9][0-9]",))),
    "ios standard host": ("ios", "ip access-list standard A\n permit %", BAD_IP4), "ios numbered host": ("ios", "access-list 7 deny host %", BAD_IP4),
    "ios numbered wildcard": ("ios", "access-list 7 deny 10.0.0.0 %", ("0.0.0.256", "0.0.0", "0.0.0.255.0")),
    "ios numbered extended": ("ios", "access-list 107 deny ip any host %", BAD_IP4),
    "ios host6": ("ios", "ipv6 access-list A\n permit ipv6 host % any", BAD_IP6), "ios prefix": ("ios", "ipv6 access-list A\n permit ipv6 any 2001:db8::/%", BAD_PFX6),
    "ios member host": ("ios", "object-group network X\n host %", BAD_IP4), "ios member net": ("ios", "object-group network X\n % 255.255.255.0", BAD_IP4),
    "ios member mask": ("ios", "object-group network X\n 10.0.0.0 %", BAD_MASK),
    "time": ("asa", "time-range X\n absolute start % 1 March 2020", ("24:00", "10:60", "10", "10:5:5", "aa:bb", "25:10", "29:59", "23:60", "10:99")),
    "day": ("asa", "time-range X\n absolute start 10:30 % March 2020", ("0", "32", "x")),
    "month": ("asa", "time-range X\n absolute start 10:30 1 % 2020", ("Mars", "13", "march", "", "Marchx", ("Z[a-z]{2,6}",))),
    "date": ("asa", "time-range X\n absolute start 10:30 % 2021", ("30 February", "29 February", "31 April", "31 November")),
    "days": ("asa", "time-range X\n periodic % 8:00 to 17:00", ("someday", "", "mon", "8:00", ("Z[a-z]{2,6}",))),
    "periodic": ("asa", "time-range X\n periodic weekdays % to 17:00", ("24:00", "10:60", "x")),
}

# forms and kinds that are none
UNKNOWN = {
    "asa": """access-list|access-list A|access-list A extended|access-list A extended permit|access-list A foo permit ip any any|access-list A extended allow ip any any
access-list A extended permit any any|access-list A extended permit ip any|access-list A extended permit ip any any any|access-list A permit
access-list A extended permit ip any any foo|access-list A extended permit tcp any eq any|access-list A extended permit tcp any any eq
access-list A extended permit ip any any log interval|access-list A extended permit ip any any log interval inactive|access-list A extended permit ip any any log 8
access-list A extended permit ip any any log 5 interval x|access-list A extended permit ip any any log foo|access-list A extended permit ip any any interval 60
access-list A extended permit tcp any any eq 80 443|access-list A extended permit tcp any any range 80|access-list A extended permit tcp any any between 1 2
access-list A extended permit tcp any any range ftp|access-list A extended permit ip host any|access-list A extended permit ip any host
access-list A extended permit ip any network 10.0.0.0 255.0.0.0|access-list A extended permit tcp any any =80|access-list A standard permit|access-list A webtype permit url
access-list A webtype permit udp any|access-list A standard permit ip any any|access-list A extended permit ip any4 any 4|access-listA extended permit ip any any
accesslist A extended permit ip any any|access-list A line 1|access-list A line x extended permit ip any any|access-list A extended permit icmp any any foo
access-list A extended permit icmp any any 3 foo|access-list A extended permit ip any any inactive foo|access-list A extended permit ip any any time-range
object|object network|object foo X|object network X; foo|object network X; host|object network X; hosts 10.0.0.1|object network X; host 10.0.0.1; foo 10.0.0.2
object service X; service|object service X; service foo|object service X; service tcp foo|object service X; service tcp source 80|object service X; service tcp destination
object service X; service tcp destination eq 80 source eq 81|object service X; tcp|object-group|object-group network|object-group foo X|object-group X
object-group network X; foo-object host 10.0.0.1|object-group network X; network-object|object-group network X; network-object 10.0.0.1|object-group network X; port-object eq 80
object-group network X; network-object host|object-group network X; group-object|object-group network X; host 10.0.0.1|object-group service X foo; port-object eq 80
object-group service X; port-object eq 80|object-group service X tcp; service-object tcp|object-group service X; service-object|object-group service X; service-object foo
object-group service X tcp; port-object 80|object-group service X tcp; port-object eq|object-group service X tcp; port-object range 1|object-group service X tcp; port-object gt 80
object-group protocol X; protocol-object|object-group protocol X; network-object host 10.0.0.1|object-group icmp-type X; icmp-object|object-group icmp-type X; icmp-object foo
object-group icmp-type X; port-object eq 80|object-group icmp X; icmp-object echo|name|name 10.0.0.1|name foo bar
access-group|access-group A|access-group A in|access-group A in interface|access-group A interface inside|access-group A in foo inside
nat|nat (inside,outside)|nat (inside,outside) source|nat (inside,outside) source static|nat (inside,outside) source static OBJ|nat (inside,outside) source foo OBJ OBK
nat inside,outside source static OBJ OBK|nat (inside,outside source static OBJ OBK|nat (inside,outside) source static OBJ OBK destination
nat (inside,outside) source static OBJ OBK destination static OBJ|nat (inside,outside) source static OBJ OBK destination dynamic OBJ OBK|nat (inside,outside) source static OBJ OBK service SVC
nat (inside,outside) source static OBJ OBK foo|nat (inside,outside) destination static OBJ OBK|nat (inside,outside) 1 2 source static OBJ OBK
object network X; nat|object network X; host 10.0.0.1; nat (inside,outside)|object network X; host 10.0.0.1; nat (inside,outside) static
object network X; host 10.0.0.1; nat (inside,outside) foo 10.0.0.2|object network X; host 10.0.0.1; nat (inside,outside) static OBJ service tcp 80
object network X; host 10.0.0.1; nat (inside,outside) static OBJ service icmp 80 81|time-range|time-range X; foo|time-range X; absolute foo 10:30 1 March 2020
hostname|domain-name|interface|nothing known|permit ip any any|deny ip any any| permit ip any any|host 10.0.0.1| network-object host 10.0.0.1
object network X;host 10.0.0.1|object-group network X;network-object host 10.0.0.1|network-object host 10.0.0.1|+|?|>|<|conf t|show run""",
    "ios": """access-list|access-list 101|access-list 101 permit|access-list 101 permit ip any|access-list 101 allow ip any any|access-list 101 permit ip any any foo bar
access-list 101 permit any|access-list 101 permit foo any any|access-list 5 permit|access-list 5 allow any|access-list 5 permit ip any any|access-list 5 permit any any
access-list 205 permit ip any any|access-list x permit ip any any|access-list 101 extended permit ip any any|ip access-list|ip access-list extended|ip access-list foo A; permit ip any any
ip access-list extended A; permit|ip access-list extended A; permit ip any|ip access-list extended A; allow ip any any|ip access-list extended A; permit any any
ip access-list extended A; permit tcp any eq any|ip access-list extended A; permit tcp any any eq|ip access-list extended A; permit tcp any any range 80|ip access-list extended A; permit ip any any any
ip access-list extended A; permit ip host any any|ip access-list extended A; permit ip any host|ip access-list extended A; 10|ip access-list extended A; 10 20 permit ip any any
ip access-list extended A; permit ip any any; foo|ip access-list extended A;permit ip any any|ip access-list extended A; permit tcp any any =80|ip access-list extended A; foo; permit ip any any
ip access-list standard A; permit|ip access-list standard A; permit ip any any|ip access-list standard A; permit tcp any any eq 80|ip access-list standard A; foo any|ip access-list standard A; permit 10.0.0.0/8
ip access-list extended A; permit tcp 10.0.0.0/8 any|ipv6 access-list|ipv6 access-list A; permit ipv6 any|ipv6 access-list A; permit|ipv6 access-list A; allow ipv6 any any
ipv6 access-list A; permit ipv6 host any any|ipv6 access-list A; permit ipv6 2001:db8:: any|ipv6 access-list A; permit tcp any any eq|ipv6 access-list A; permit ipv6 any any foo|ipv6 access-list A; sequence permit ipv6 any any
ipv6 access-list A;permit ipv6 any any|object-group|object-group network|object-group foo X|object-group network X; foo|object-group network X; host|object-group network X; network-object host 10.0.0.1
object-group service X; foo|object-group service X; tcp source|object-group service X; tcp destination foo|object-group service X; tcp eq 80 foo|object-group network X;host 10.0.0.1
object-group network X; host 10.0.0.1; foo|permit ip any any|deny ip any any|host 10.0.0.1|nothing known|ip foo|ipv6 foo|interface|+|?|>|<|conf t
interface e9; ip access-group|interface e9; ip access-group A|interface e9; ip access-group A foo|interface e9; ip access-group A in out|interface e9; ipv6 traffic-filter A|interface e9; ipv6 traffic-filter A foo""",
}


def parts(tokens):
    """text with slots"""
    out = []
    for i, t in enumerate(tokens):
        if t in VALUES:
            out.append(VALUES[t]())
        elif t == "@g":
            out.append(GARBAGE())
        else:
            m = re.match(r"(@[a-z]+)(/.*)$", t)
            if m:
                out.extend([VALUES[m.group(1)](), m.group(2)])
            else:
                out.append(t)
    return out


def render(lines):
    out = []
    for i, (ind, toks) in enumerate(lines):
        if i:
            out.append("\n" + ind)
        for j, t in enumerate(toks):
            if j:
                out.append(" ")
            out.extend(parts([t]))
    return out


def mutations(lines):
    for li, (ind, toks) in enumerate(lines):
        def put(nt):
            return lines[:li] + [(ind, nt)] + lines[li + 1:]
        w = "line %d " % li if len(lines) > 1 else ""
        for i, t in enumerate(toks):
            yield w + "without %s (%d)" % (t, i), put(toks[:i] + toks[i + 1:])
            yield w + "%s twice (%d)" % (t, i), put(toks[:i + 1] + toks[i:])
            yield w + "garbage for %s (%d)" % (t, i), put(toks[:i] + ["@g"] + toks[i + 1:])
            yield w + "garbage before %s (%d)" % (t, i), put(toks[:i] + ["@g"] + toks[i:])
            if i + 1 < len(toks) and toks[i + 1] != t:
                yield w + "%s and %s swapped (%d)" % (t, toks[i + 1], i), put(toks[:i] + [toks[i + 1], t] + toks[i + 2:])
            if 0 < i < len(toks) - 1:
                yield w + "up to %s (%d)" % (t, i), put(toks[:i])
        yield w + "garbage after", put(toks + ["@g"])


def lines_of(text):
    out = []
    for l in text.split("\n"):
        ind = re.match(" *", l).group(0)
        out.append((ind, l.split()))
    return out


def before(dia):
    f = Form()
    for l in ASA_PRE if dia == "asa" else IOS_PRE:
        f = f + L1(l)
    return f


RULES = {"asa": lambda r: ext(r, "permit", *P("tcp"), (["host ", ip4("rh")], ("host", ip4("rh"))), ANY),
         "ios": lambda r: nlist("extended", r, next_(r, "permit", *P("tcp"), (["host ", ip4("rh")], ("host", ip4("rh")), None), ANY))}


def bad_values(text, i):
    """texts around a value"""
    a, b = text.split("%")
    for v in i:
        if isinstance(v, tuple):
            yield v[0], [a, slot("v" + v[0].replace("{", "(").replace("}", ")"), v), b]
        else:
            yield v or "nothing", [a + v + b]


def c19(tier):
    for n, (dia, text) in BASES.items():
        for m, ls in mutations(lines_of(text)):
            if m in VALID.get(n, ()) or n == "ios interface" and OTHER_DETAIL.match(m):
                continue
            yield conf(tier, "%s: %s" % (n, m), dia, before(dia) + L1(render(ls)), reject=True, variants=(0,))
    for n, (dia, text, bad) in VALUE_PLACES.items():
        for v, t in bad_values(text, bad):
            if v.endswith("/24") and "net" in n:
                continue
            yield conf(tier, "%s of value %s" % (n, v), dia, before(dia) + L1(t), reject=True, variants=(0,))
    for dia, t in UNKNOWN.items():
        for l in t.replace("\n", "|").split("|"):
            yield conf(tier, "%s form %s" % (dia, l), dia, before(dia) + L1(l.replace(";", "\n")), reject=True, variants=(0,))
    # garbage between what is fine
    for dia, R in RULES.items():
        for n, g in (("a word", [GARBAGE()]), ("words", [GARBAGE(), " 10.0.0.1 any"]), ("an unknown access-list", ["access-list ", GARBAGE()])):
            for k, f in (("first", L1(g) + R("A") + R("B")), ("between", R("A") + L1(g) + R("B")), ("last", R("A") + R("B") + L1(g)),
                         ("indented", R("A") + L1([" "] + g) + R("B"))):
                yield conf(tier, "%s %s %s" % (dia, n, k), dia, f, reject=True, variants=(0,))
        for k, bad in (("a rule of another dialect", {"ios": "access-list A extended permit ip any any", "asa": "ip access-list extended A\n permit ip any any"}),
                       ("a rule cut off", {"asa": "access-list A extended permit tcp any host", "ios": "access-list 101 permit tcp any host"})):
            for n, f in (("first", L1(bad[dia]) + R("A")), ("last", R("A") + L1(bad[dia])), ("between", R("A") + L1(bad[dia]) + R("B"))):
                yield conf(tier, "%s %s %s" % (dia, k, n), dia, f, reject=True, variants=(0,))
    # the first dialect that accepts the whole text decides
    host = Form((["hostname fw1"], ("hostname", "fw1")))
    plain = Form((["interface eth7\n description uplink"], ("iface", "eth7", None, "uplink", (), (), None)))
    plain_ios = Form((["interface eth7\n description uplink\n ip access-group A in"], ("iface", "eth7", None, "uplink", (), (("A", "A", "in"),), None)))
    dom = Form((["domain-name a.org"], ("domain", "a.org")))
    for n, f in (("host name", host), ("comment", L1("!")), ("host name and comments", L1("! a") + host + L1("!")),
                 ("rule", RULES["asa"]("A")), ("rule after host name", host + RULES["asa"]("A")), ("name", named("N", "nm")),
                 ("group", ngroup("G", "gg")), ("object", obj("O", "oo")), ("domain", dom)):
        yield conf(tier, "ASA decides on %s" % n, "asa", f, variants=(0,), head=False)
    for n, f in (("rule", RULES["ios"]("A")), ("rule after host name", host + RULES["ios"]("A")), ("standard rule", numbered("5", "permit", S_())),
                 ("rules after a comment", L1("!") + RULES["ios"]("A") + RULES["ios"]("B"))):
        yield conf(tier, "IOS decides on %s" % n, "ios", f, variants=(0,), head=False)


def S_():
    return (["host ", ip4("h")], ("host", ip4("h")), None)
