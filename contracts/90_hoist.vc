@@ hoist MyDynParserTrait
