from acltk.aclObjects import ACLConfig
from acltk.cafObjects import cafBlock
from acltk.aclObjects import ACLParserOptions
from acltk.pfsenseObjects import pfsenseParserOptions
