from lib.probes.probe import Fail
