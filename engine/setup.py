"""builds the exporter (the checks build it themselves when it is missing)"""
import vp
print(vp.irx())
