"""A stateful batch pipeline the harness registers next to the repository's."""
import zlib

import numpy as np


def register():
    from dataset.core import FieldSpec, PreparedPipelineResult
    from dataset.pipeline import BasePipeline, PIPELINES

    if "verif_stamp" in PIPELINES:
        return PIPELINES["verif_stamp"]

    @PIPELINES.register("verif_stamp")
    class StampPipeline(BasePipeline):
        pipeline_id = "verif_stamp"
        schema_version = 1
        input_fields = (
            FieldSpec("board_input", False, "per_sample", None, None, "stack", ("b", "i", "u"), "plain"),
        )
        output_fields = (
            FieldSpec("stamp", True, "per_sample", None, None, "stack", ("i",), "plain"),
        )

        def signature_state(self):
            return {"kind": "stamp"}

        def initial_state(self):
            return {"batches": 0, "mix": 0}

        def process(self, data):
            raise NotImplementedError

        def process_batch(self, data, *, sample_keys=None, rng_keys=None):
            raise NotImplementedError

        def prepare_batch(self, data, *, current_state, sample_keys, rng_keys):
            keys = zlib.crc32(repr(tuple(sample_keys)).encode()) & 0x7FFFFF
            rng = zlib.crc32(repr(tuple(rng_keys)).encode()) & 0x7FFFFF
            mix = (current_state["mix"] * 31 + keys + rng) & 0x7FFFFF
            stamp = np.asarray([[current_state["batches"], mix]] * len(sample_keys), dtype=np.int64)
            return PreparedPipelineResult(
                dict(data, stamp=stamp), {"batches": current_state["batches"] + 1, "mix": mix})

    return StampPipeline
