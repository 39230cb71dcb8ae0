"""Static analysis of v8serialize: source loading, abstract interpretation, rules."""
