from lib.probes.probe import Entity
