import sys; sys.path.insert(0,'/verif')
from pfv import diffrun as D
import os
os.makedirs('/tmp/dd',exist_ok=True)
D.build('/tmp/dd')
