package main

import gjs "github.com/xeipuuv/gojsonschema"

// custom is a locale whose templates are looked up by method name; names that are
// not in the map have the default template
type custom struct {
	gjs.DefaultLocale
	m map[string]string
}

func (c custom) of(k, d string) string {
	if s, ok := c.m[k]; ok {
		return s
	}
	return d + c.m["suffix"]
}

func (c custom) False() string       { return c.of("False", c.DefaultLocale.False()) }
func (c custom) Required() string    { return c.of("Required", c.DefaultLocale.Required()) }
func (c custom) InvalidType() string { return c.of("InvalidType", c.DefaultLocale.InvalidType()) }
func (c custom) NumberAnyOf() string { return c.of("NumberAnyOf", c.DefaultLocale.NumberAnyOf()) }
func (c custom) NumberOneOf() string { return c.of("NumberOneOf", c.DefaultLocale.NumberOneOf()) }
func (c custom) NumberAllOf() string { return c.of("NumberAllOf", c.DefaultLocale.NumberAllOf()) }
func (c custom) NumberNot() string   { return c.of("NumberNot", c.DefaultLocale.NumberNot()) }
func (c custom) MissingDependency() string {
	return c.of("MissingDependency", c.DefaultLocale.MissingDependency())
}
func (c custom) Internal() string { return c.of("Internal", c.DefaultLocale.Internal()) }
func (c custom) Const() string    { return c.of("Const", c.DefaultLocale.Const()) }
func (c custom) Enum() string     { return c.of("Enum", c.DefaultLocale.Enum()) }
func (c custom) ArrayNotEnoughItems() string {
	return c.of("ArrayNotEnoughItems", c.DefaultLocale.ArrayNotEnoughItems())
}
func (c custom) ArrayNoAdditionalItems() string {
	return c.of("ArrayNoAdditionalItems", c.DefaultLocale.ArrayNoAdditionalItems())
}
func (c custom) ArrayMinItems() string { return c.of("ArrayMinItems", c.DefaultLocale.ArrayMinItems()) }
func (c custom) ArrayMaxItems() string { return c.of("ArrayMaxItems", c.DefaultLocale.ArrayMaxItems()) }
func (c custom) Unique() string        { return c.of("Unique", c.DefaultLocale.Unique()) }
func (c custom) ArrayContains() string { return c.of("ArrayContains", c.DefaultLocale.ArrayContains()) }
func (c custom) ArrayMinProperties() string {
	return c.of("ArrayMinProperties", c.DefaultLocale.ArrayMinProperties())
}
func (c custom) ArrayMaxProperties() string {
	return c.of("ArrayMaxProperties", c.DefaultLocale.ArrayMaxProperties())
}
func (c custom) AdditionalPropertyNotAllowed() string {
	return c.of("AdditionalPropertyNotAllowed", c.DefaultLocale.AdditionalPropertyNotAllowed())
}
func (c custom) InvalidPropertyPattern() string {
	return c.of("InvalidPropertyPattern", c.DefaultLocale.InvalidPropertyPattern())
}
func (c custom) InvalidPropertyName() string {
	return c.of("InvalidPropertyName", c.DefaultLocale.InvalidPropertyName())
}
func (c custom) StringGTE() string { return c.of("StringGTE", c.DefaultLocale.StringGTE()) }
func (c custom) StringLTE() string { return c.of("StringLTE", c.DefaultLocale.StringLTE()) }
func (c custom) DoesNotMatchPattern() string {
	return c.of("DoesNotMatchPattern", c.DefaultLocale.DoesNotMatchPattern())
}
func (c custom) DoesNotMatchFormat() string {
	return c.of("DoesNotMatchFormat", c.DefaultLocale.DoesNotMatchFormat())
}
func (c custom) MultipleOf() string   { return c.of("MultipleOf", c.DefaultLocale.MultipleOf()) }
func (c custom) NumberGTE() string    { return c.of("NumberGTE", c.DefaultLocale.NumberGTE()) }
func (c custom) NumberGT() string     { return c.of("NumberGT", c.DefaultLocale.NumberGT()) }
func (c custom) NumberLTE() string    { return c.of("NumberLTE", c.DefaultLocale.NumberLTE()) }
func (c custom) NumberLT() string     { return c.of("NumberLT", c.DefaultLocale.NumberLT()) }
func (c custom) RegexPattern() string { return c.of("RegexPattern", c.DefaultLocale.RegexPattern()) }
func (c custom) GreaterThanZero() string {
	return c.of("GreaterThanZero", c.DefaultLocale.GreaterThanZero())
}
func (c custom) MustBeOfA() string  { return c.of("MustBeOfA", c.DefaultLocale.MustBeOfA()) }
func (c custom) MustBeOfAn() string { return c.of("MustBeOfAn", c.DefaultLocale.MustBeOfAn()) }
func (c custom) CannotBeUsedWithout() string {
	return c.of("CannotBeUsedWithout", c.DefaultLocale.CannotBeUsedWithout())
}
func (c custom) CannotBeGT() string   { return c.of("CannotBeGT", c.DefaultLocale.CannotBeGT()) }
func (c custom) MustBeOfType() string { return c.of("MustBeOfType", c.DefaultLocale.MustBeOfType()) }
func (c custom) MustBeValidRegex() string {
	return c.of("MustBeValidRegex", c.DefaultLocale.MustBeValidRegex())
}
func (c custom) MustBeValidFormat() string {
	return c.of("MustBeValidFormat", c.DefaultLocale.MustBeValidFormat())
}
func (c custom) MustBeGTEZero() string { return c.of("MustBeGTEZero", c.DefaultLocale.MustBeGTEZero()) }
func (c custom) KeyCannotBeGreaterThan() string {
	return c.of("KeyCannotBeGreaterThan", c.DefaultLocale.KeyCannotBeGreaterThan())
}
func (c custom) KeyItemsMustBeOfType() string {
	return c.of("KeyItemsMustBeOfType", c.DefaultLocale.KeyItemsMustBeOfType())
}
func (c custom) KeyItemsMustBeUnique() string {
	return c.of("KeyItemsMustBeUnique", c.DefaultLocale.KeyItemsMustBeUnique())
}
func (c custom) ReferenceMustBeCanonical() string {
	return c.of("ReferenceMustBeCanonical", c.DefaultLocale.ReferenceMustBeCanonical())
}
func (c custom) NotAValidType() string { return c.of("NotAValidType", c.DefaultLocale.NotAValidType()) }
func (c custom) Duplicated() string    { return c.of("Duplicated", c.DefaultLocale.Duplicated()) }
func (c custom) HttpBadStatus() string { return c.of("HttpBadStatus", c.DefaultLocale.HttpBadStatus()) }
func (c custom) ParseError() string    { return c.of("ParseError", c.DefaultLocale.ParseError()) }
func (c custom) ConditionThen() string { return c.of("ConditionThen", c.DefaultLocale.ConditionThen()) }
func (c custom) ConditionElse() string { return c.of("ConditionElse", c.DefaultLocale.ConditionElse()) }
func (c custom) ErrorFormat() string   { return c.of("ErrorFormat", c.DefaultLocale.ErrorFormat()) }
