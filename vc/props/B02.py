"""B02: CFB/OFB streaming equals the mode definition for every key, IV, content and chunking."""
import fw
import modespec


def main():
    return fw.main('B02', modespec.tasks('cfbe,cfbd,ofbe,ofbd'.split(',')), trusted=fw.TRUSTED, assumptions=fw.ASSUMPTIONS + modespec.ASSUME)
