import sys; sys.path.insert(0,'/verif/findings')
from oidcop.session.database import Database
from oidcop.util import Crypt
import base64
d=Database()
try: print(Crypt("").decrypt(base64.b64decode(d.encrypted_session_id("a","b","c"))), "DEFECT")
except Exception as e: print("ok", type(e))
