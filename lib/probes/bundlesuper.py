from lib.probes.probe import Bundlesuper
