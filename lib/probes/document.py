from lib.probes.probe import Document
