from lib.probes.probe import Mention
