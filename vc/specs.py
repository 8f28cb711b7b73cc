from specs1 import *
from specs2 import *
from specs4 import *
from specs6 import *
from specs7 import *
from specs8 import *
from specs9 import *
from specs10 import *
from specs11 import *
