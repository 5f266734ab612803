SPECIFICATION TraceSpec
CONSTANTS NAdd <- DAdd NSub <- DSub NMul <- DMul NDiv <- DDiv NLt <- DLt NInt <- DInt
