"""All checks, by property."""
from checks_core import *
from checks_util import *
from checks_plat import *
LEVEL = {}
from checks_tool import *
from checks_isa import *
