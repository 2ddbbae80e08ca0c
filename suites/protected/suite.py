CRATES = [{"dir": "protected", "features": ["with-serde"]}, {"dir": "futures_utils"}]
DEPS = 'serde = "1.0.104"\nserde_json = "=1.0.150"\nbincode = "1.3"\nfutures = "0.3"'
ASSUMPTIONS = ["the memzero, serde, serde_json, bincode and futures crates are encoded as they are"]
