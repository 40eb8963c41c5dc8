"C01: MQTT 5 packets round trip"
from sx.run import main
from checks import codec

if __name__ == "__main__":
    raise SystemExit(main("C01", lambda tier: codec.harnesses(5, tier)))
