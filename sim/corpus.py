"""A sample of real-world queries (macros expanded), taken from the project's sample data."""
import json, pathlib
QUERIES = json.load(open(pathlib.Path(__file__).with_name("corpus.json")))
