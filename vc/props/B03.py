"""B03: CTR streaming equals the mode definition for every key, IV, content and chunking."""
import fw
import modespec


def main():
    return fw.main('B03', modespec.tasks('ctre,ctrd'.split(',')), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + modespec.ASSUME)
