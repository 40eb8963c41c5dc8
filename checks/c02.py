"C02: MQTT 3.1.1 packets round trip"
from sx.run import main
from checks import codec

if __name__ == "__main__":
    raise SystemExit(main("C02", lambda tier: codec.harnesses(311, tier)))
