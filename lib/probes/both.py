from lib.probes.probe import Both
