"""B01: ECB/CBC streaming equals the mode definition for every key, IV, content and chunking."""
import fw
import modespec


def main():
    return fw.main('B01', modespec.tasks('ecbe,ecbd,cbce,cbcd'.split(',')), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + modespec.ASSUME)
