"""P04: SM2 signatures."""
import sm2spec


def main():
    return sm2spec.main('P04')
