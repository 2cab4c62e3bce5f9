from lib.probes.probe import Treesuper
