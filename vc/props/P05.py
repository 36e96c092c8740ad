"""P05: SM2 encryption."""
import sm2spec


def main():
    return sm2spec.main('P05')
