FIX2 = {
 "mbt: a model whose pools": "C34", "mbt: actions without parameters": "C34", "mbt: exploration goes on after": "C34", "mbt: an observation which arrives": "C34",
 "mbt: a result which the test": "C34",
 "MQTT 5 clients, and the options": "C33", "the HTTP API did not answer for": "C33", "the HTTP API did not answer requests": "C33", "an HTTP listener with TLS": "C30",
 "HTTP listeners were not stopped": "C30", "requests to the HTTP API failed": "C33", "websocket handshakes with a header": "C27", "websocket text frames": "C27",
 "MQTT-SN clients could not": "C31", "MQTT-SN CONNECT with another": "C31", "MQTT-SN publications which": "C31", "MQTT-SN publications with wild": "C31",
 "the restart proxy lost": "C32", "connections through the restart": "C32",
 "a configuration without listener": "C30", "server_keep_alive in the": "C30", "options of the server which follow": "C30",
 "MQTT-SN messages had wrong": "C29", "the clients looked for ever": "C28", "the clients did not continue": "C28",
 "the MQTT 5 client sent PUBREL": "C28", "the clients did not acknowledge QoS 1": "C28", "the clients did not answer a repeated": "C28",
 "the clients went on reading": "C28", "a pause inside a packet made": "C28", "the clients sent packets again": "C28",
 "the clients stopped receiving before": "C28", "the clients' default callback": "C28",
 "with overlapping_single off": "C36", "the optional behaviours on the command": "C36",
 "websockets: several packets": "C27", "a pause inside a packet ended": "C26", "the listener read for ever": "C26",
}
OPEN = []
