"""P06: SM2 keys are always in range and public keys always match."""
import sm2spec


def main():
    return sm2spec.main('P06')
