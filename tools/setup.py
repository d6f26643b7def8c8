"""Builds the extractor and the harness once, so that checks find them built."""
import os
import pipeline
import harness

os.makedirs(pipeline.BUILD, exist_ok=True)
pipeline.build_otv()
for c in pipeline.CONFIGS:
    b, more = harness.build(c)
    print(c, b, more)
