from lib.probes.probe import Tree
