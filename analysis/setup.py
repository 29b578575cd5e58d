"""setup_cmd: build the extractor and extract the facts once (every check does this itself when needed)."""
import facts

print(facts.ensure())
