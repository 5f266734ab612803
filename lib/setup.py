import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vk
vk.java_classes()
print("java overrides ready in", vk.OUT)
