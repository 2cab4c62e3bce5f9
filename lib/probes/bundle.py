from lib.probes.probe import Bundle
