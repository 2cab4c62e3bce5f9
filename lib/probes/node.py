from lib.probes.probe import Node
