package main

// generated by tools/mk_vocab.py from verifier/catalog.json

import (
	"github.com/go-andiamo/aitch"
	"github.com/go-andiamo/aitch/css"
	"github.com/go-andiamo/aitch/html"
	"github.com/go-andiamo/aitch/htmx"
	"github.com/go-andiamo/aitch/svg"
)

type word struct {
	fn, kind, name, delim string
	node                  func(v []any) aitch.Node
	val                   func(v []any) aitch.Value
}

var words = []word{
	{"css.AlignContent", "css", "align-content:", "", func(v []any) aitch.Node { return css.AlignContent(v...) }, nil},
	{"css.AlignItems", "css", "align-items:", "", func(v []any) aitch.Node { return css.AlignItems(v...) }, nil},
	{"css.AlignSelf", "css", "align-self:", "", func(v []any) aitch.Node { return css.AlignSelf(v...) }, nil},
	{"css.Animation", "css", "animation:", "", func(v []any) aitch.Node { return css.Animation(v...) }, nil},
	{"css.AnimationDelay", "css", "animation-delay:", "", func(v []any) aitch.Node { return css.AnimationDelay(v...) }, nil},
	{"css.AnimationDirection", "css", "animation-direction:", "", func(v []any) aitch.Node { return css.AnimationDirection(v...) }, nil},
	{"css.AnimationDuration", "css", "animation-duration:", "", func(v []any) aitch.Node { return css.AnimationDuration(v...) }, nil},
	{"css.AnimationFillMode", "css", "animation-fill-mode:", "", func(v []any) aitch.Node { return css.AnimationFillMode(v...) }, nil},
	{"css.AnimationIterationCount", "css", "animation-iteration-count:", "", func(v []any) aitch.Node { return css.AnimationIterationCount(v...) }, nil},
	{"css.AnimationName", "css", "animation-name:", "", func(v []any) aitch.Node { return css.AnimationName(v...) }, nil},
	{"css.AnimationPlayState", "css", "animation-play-state:", "", func(v []any) aitch.Node { return css.AnimationPlayState(v...) }, nil},
	{"css.AnimationTimingFunction", "css", "animation-timing-function:", "", func(v []any) aitch.Node { return css.AnimationTimingFunction(v...) }, nil},
	{"css.AspectRatio", "css", "aspect-ratio:", "", func(v []any) aitch.Node { return css.AspectRatio(v...) }, nil},
	{"css.BackdropFilter", "css", "backdrop-filter:", "", func(v []any) aitch.Node { return css.BackdropFilter(v...) }, nil},
	{"css.Background", "css", "background:", "", func(v []any) aitch.Node { return css.Background(v...) }, nil},
	{"css.BackgroundColor", "css", "background-color:", "", func(v []any) aitch.Node { return css.BackgroundColor(v...) }, nil},
	{"css.BackgroundImage", "css", "background-image:", "", func(v []any) aitch.Node { return css.BackgroundImage(v...) }, nil},
	{"css.BackgroundPosition", "css", "background-position:", "", func(v []any) aitch.Node { return css.BackgroundPosition(v...) }, nil},
	{"css.BackgroundRepeat", "css", "background-repeat:", "", func(v []any) aitch.Node { return css.BackgroundRepeat(v...) }, nil},
	{"css.BackgroundSize", "css", "background-size:", "", func(v []any) aitch.Node { return css.BackgroundSize(v...) }, nil},
	{"css.Border", "css", "border:", "", func(v []any) aitch.Node { return css.Border(v...) }, nil},
	{"css.BorderBottom", "css", "border-bottom:", "", func(v []any) aitch.Node { return css.BorderBottom(v...) }, nil},
	{"css.BorderCollapse", "css", "border-collapse:", "", func(v []any) aitch.Node { return css.BorderCollapse(v...) }, nil},
	{"css.BorderColor", "css", "border-color:", "", func(v []any) aitch.Node { return css.BorderColor(v...) }, nil},
	{"css.BorderLeft", "css", "border-left:", "", func(v []any) aitch.Node { return css.BorderLeft(v...) }, nil},
	{"css.BorderRadius", "css", "border-radius:", "", func(v []any) aitch.Node { return css.BorderRadius(v...) }, nil},
	{"css.BorderRight", "css", "border-right:", "", func(v []any) aitch.Node { return css.BorderRight(v...) }, nil},
	{"css.BorderSpacing", "css", "border-spacing:", "", func(v []any) aitch.Node { return css.BorderSpacing(v...) }, nil},
	{"css.BorderStyle", "css", "border-style:", "", func(v []any) aitch.Node { return css.BorderStyle(v...) }, nil},
	{"css.BorderTop", "css", "border-top:", "", func(v []any) aitch.Node { return css.BorderTop(v...) }, nil},
	{"css.BorderWidth", "css", "border-width:", "", func(v []any) aitch.Node { return css.BorderWidth(v...) }, nil},
	{"css.Bottom", "css", "bottom:", "", func(v []any) aitch.Node { return css.Bottom(v...) }, nil},
	{"css.BoxDecorationBreak", "css", "box-decoration-break:", "", func(v []any) aitch.Node { return css.BoxDecorationBreak(v...) }, nil},
	{"css.BoxShadow", "css", "box-shadow:", "", func(v []any) aitch.Node { return css.BoxShadow(v...) }, nil},
	{"css.BoxSizing", "css", "box-sizing:", "", func(v []any) aitch.Node { return css.BoxSizing(v...) }, nil},
	{"css.CaretColor", "css", "caret-color:", "", func(v []any) aitch.Node { return css.CaretColor(v...) }, nil},
	{"css.Ch", "unit", "ch", "", nil, func(v []any) aitch.Value { return css.Ch(v...) }},
	{"css.Clear", "css", "clear:", "", func(v []any) aitch.Node { return css.Clear(v...) }, nil},
	{"css.Cm", "unit", "cm", "", nil, func(v []any) aitch.Value { return css.Cm(v...) }},
	{"css.Color", "css", "color:", "", func(v []any) aitch.Node { return css.Color(v...) }, nil},
	{"css.ColumnGap", "css", "column-gap:", "", func(v []any) aitch.Node { return css.ColumnGap(v...) }, nil},
	{"css.Contain", "css", "contain:", "", func(v []any) aitch.Node { return css.Contain(v...) }, nil},
	{"css.ContentVisibility", "css", "content-visibility:", "", func(v []any) aitch.Node { return css.ContentVisibility(v...) }, nil},
	{"css.Cursor", "css", "cursor:", "", func(v []any) aitch.Node { return css.Cursor(v...) }, nil},
	{"css.Direction", "css", "direction:", "", func(v []any) aitch.Node { return css.Direction(v...) }, nil},
	{"css.Display", "css", "display:", "", func(v []any) aitch.Node { return css.Display(v...) }, nil},
	{"css.Em", "unit", "em", "", nil, func(v []any) aitch.Value { return css.Em(v...) }},
	{"css.EmptyCells", "css", "empty-cells:", "", func(v []any) aitch.Node { return css.EmptyCells(v...) }, nil},
	{"css.Ex", "unit", "ex", "", nil, func(v []any) aitch.Value { return css.Ex(v...) }},
	{"css.Filter", "css", "filter:", "", func(v []any) aitch.Node { return css.Filter(v...) }, nil},
	{"css.Flex", "css", "flex:", "", func(v []any) aitch.Node { return css.Flex(v...) }, nil},
	{"css.FlexBasis", "css", "flex-basis:", "", func(v []any) aitch.Node { return css.FlexBasis(v...) }, nil},
	{"css.FlexGrow", "css", "flex-grow:", "", func(v []any) aitch.Node { return css.FlexGrow(v...) }, nil},
	{"css.FlexShrink", "css", "flex-shrink:", "", func(v []any) aitch.Node { return css.FlexShrink(v...) }, nil},
	{"css.Float", "css", "float:", "", func(v []any) aitch.Node { return css.Float(v...) }, nil},
	{"css.FontFamily", "css", "font-family:", "", func(v []any) aitch.Node { return css.FontFamily(v...) }, nil},
	{"css.FontSize", "css", "font-size:", "", func(v []any) aitch.Node { return css.FontSize(v...) }, nil},
	{"css.FontStretch", "css", "font-stretch:", "", func(v []any) aitch.Node { return css.FontStretch(v...) }, nil},
	{"css.FontStyle", "css", "font-style:", "", func(v []any) aitch.Node { return css.FontStyle(v...) }, nil},
	{"css.FontVariant", "css", "font-variant:", "", func(v []any) aitch.Node { return css.FontVariant(v...) }, nil},
	{"css.FontWeight", "css", "font-weight:", "", func(v []any) aitch.Node { return css.FontWeight(v...) }, nil},
	{"css.Gap", "css", "gap:", "", func(v []any) aitch.Node { return css.Gap(v...) }, nil},
	{"css.GridArea", "css", "grid-area:", "", func(v []any) aitch.Node { return css.GridArea(v...) }, nil},
	{"css.GridAutoFlow", "css", "grid-auto-flow:", "", func(v []any) aitch.Node { return css.GridAutoFlow(v...) }, nil},
	{"css.GridColumn", "css", "grid-column:", "", func(v []any) aitch.Node { return css.GridColumn(v...) }, nil},
	{"css.GridRow", "css", "grid-row:", "", func(v []any) aitch.Node { return css.GridRow(v...) }, nil},
	{"css.GridTemplateColumns", "css", "grid-template-columns:", "", func(v []any) aitch.Node { return css.GridTemplateColumns(v...) }, nil},
	{"css.GridTemplateRows", "css", "grid-template-rows:", "", func(v []any) aitch.Node { return css.GridTemplateRows(v...) }, nil},
	{"css.Height", "css", "height:", "", func(v []any) aitch.Node { return css.Height(v...) }, nil},
	{"css.In", "unit", "in", "", nil, func(v []any) aitch.Value { return css.In(v...) }},
	{"css.Isolation", "css", "isolation:", "", func(v []any) aitch.Node { return css.Isolation(v...) }, nil},
	{"css.JustifyContent", "css", "justify-content:", "", func(v []any) aitch.Node { return css.JustifyContent(v...) }, nil},
	{"css.Left", "css", "left:", "", func(v []any) aitch.Node { return css.Left(v...) }, nil},
	{"css.LetterSpacing", "css", "letter-spacing:", "", func(v []any) aitch.Node { return css.LetterSpacing(v...) }, nil},
	{"css.LineHeight", "css", "line-height:", "", func(v []any) aitch.Node { return css.LineHeight(v...) }, nil},
	{"css.ListStyle", "css", "list-style:", "", func(v []any) aitch.Node { return css.ListStyle(v...) }, nil},
	{"css.ListStyleImage", "css", "list-style-image:", "", func(v []any) aitch.Node { return css.ListStyleImage(v...) }, nil},
	{"css.ListStylePosition", "css", "list-style-position:", "", func(v []any) aitch.Node { return css.ListStylePosition(v...) }, nil},
	{"css.ListStyleType", "css", "list-style-type:", "", func(v []any) aitch.Node { return css.ListStyleType(v...) }, nil},
	{"css.Margin", "css", "margin:", "", func(v []any) aitch.Node { return css.Margin(v...) }, nil},
	{"css.MarginBottom", "css", "margin-bottom:", "", func(v []any) aitch.Node { return css.MarginBottom(v...) }, nil},
	{"css.MarginLeft", "css", "margin-left:", "", func(v []any) aitch.Node { return css.MarginLeft(v...) }, nil},
	{"css.MarginRight", "css", "margin-right:", "", func(v []any) aitch.Node { return css.MarginRight(v...) }, nil},
	{"css.MarginTop", "css", "margin-top:", "", func(v []any) aitch.Node { return css.MarginTop(v...) }, nil},
	{"css.MaxHeight", "css", "max-height:", "", func(v []any) aitch.Node { return css.MaxHeight(v...) }, nil},
	{"css.MaxWidth", "css", "max-width:", "", func(v []any) aitch.Node { return css.MaxWidth(v...) }, nil},
	{"css.MinHeight", "css", "min-height:", "", func(v []any) aitch.Node { return css.MinHeight(v...) }, nil},
	{"css.MinWidth", "css", "min-width:", "", func(v []any) aitch.Node { return css.MinWidth(v...) }, nil},
	{"css.MixBlendMode", "css", "mix-blend-mode:", "", func(v []any) aitch.Node { return css.MixBlendMode(v...) }, nil},
	{"css.Mm", "unit", "mm", "", nil, func(v []any) aitch.Value { return css.Mm(v...) }},
	{"css.ObjectFit", "css", "object-fit:", "", func(v []any) aitch.Node { return css.ObjectFit(v...) }, nil},
	{"css.ObjectPosition", "css", "object-position:", "", func(v []any) aitch.Node { return css.ObjectPosition(v...) }, nil},
	{"css.Opacity", "css", "opacity:", "", func(v []any) aitch.Node { return css.Opacity(v...) }, nil},
	{"css.Overflow", "css", "overflow:", "", func(v []any) aitch.Node { return css.Overflow(v...) }, nil},
	{"css.OverflowX", "css", "overflow-x:", "", func(v []any) aitch.Node { return css.OverflowX(v...) }, nil},
	{"css.OverflowY", "css", "overflow-y:", "", func(v []any) aitch.Node { return css.OverflowY(v...) }, nil},
	{"css.Padding", "css", "padding:", "", func(v []any) aitch.Node { return css.Padding(v...) }, nil},
	{"css.PaddingBottom", "css", "padding-bottom:", "", func(v []any) aitch.Node { return css.PaddingBottom(v...) }, nil},
	{"css.PaddingLeft", "css", "padding-left:", "", func(v []any) aitch.Node { return css.PaddingLeft(v...) }, nil},
	{"css.PaddingRight", "css", "padding-right:", "", func(v []any) aitch.Node { return css.PaddingRight(v...) }, nil},
	{"css.PaddingTop", "css", "padding-top:", "", func(v []any) aitch.Node { return css.PaddingTop(v...) }, nil},
	{"css.PageBreakAfter", "css", "page-break-after:", "", func(v []any) aitch.Node { return css.PageBreakAfter(v...) }, nil},
	{"css.PageBreakBefore", "css", "page-break-before:", "", func(v []any) aitch.Node { return css.PageBreakBefore(v...) }, nil},
	{"css.PageBreakInside", "css", "page-break-inside:", "", func(v []any) aitch.Node { return css.PageBreakInside(v...) }, nil},
	{"css.Pc", "unit", "pc", "", nil, func(v []any) aitch.Value { return css.Pc(v...) }},
	{"css.Percent", "unit", "%", "", nil, func(v []any) aitch.Value { return css.Percent(v...) }},
	{"css.PlaceContent", "css", "place-content:", "", func(v []any) aitch.Node { return css.PlaceContent(v...) }, nil},
	{"css.PlaceItems", "css", "place-items:", "", func(v []any) aitch.Node { return css.PlaceItems(v...) }, nil},
	{"css.PlaceSelf", "css", "place-self:", "", func(v []any) aitch.Node { return css.PlaceSelf(v...) }, nil},
	{"css.PointerEvents", "css", "pointer-events:", "", func(v []any) aitch.Node { return css.PointerEvents(v...) }, nil},
	{"css.Position", "css", "position:", "", func(v []any) aitch.Node { return css.Position(v...) }, nil},
	{"css.Pt", "unit", "pt", "", nil, func(v []any) aitch.Value { return css.Pt(v...) }},
	{"css.Px", "unit", "px", "", nil, func(v []any) aitch.Value { return css.Px(v...) }},
	{"css.Rem", "unit", "rem", "", nil, func(v []any) aitch.Value { return css.Rem(v...) }},
	{"css.Resize", "css", "resize:", "", func(v []any) aitch.Node { return css.Resize(v...) }, nil},
	{"css.Right", "css", "right:", "", func(v []any) aitch.Node { return css.Right(v...) }, nil},
	{"css.RowGap", "css", "row-gap:", "", func(v []any) aitch.Node { return css.RowGap(v...) }, nil},
	{"css.ScrollBehavior", "css", "scroll-behavior:", "", func(v []any) aitch.Node { return css.ScrollBehavior(v...) }, nil},
	{"css.ScrollMargin", "css", "scroll-margin:", "", func(v []any) aitch.Node { return css.ScrollMargin(v...) }, nil},
	{"css.ScrollPadding", "css", "scroll-padding:", "", func(v []any) aitch.Node { return css.ScrollPadding(v...) }, nil},
	{"css.ScrollSnapAlign", "css", "scroll-snap-align:", "", func(v []any) aitch.Node { return css.ScrollSnapAlign(v...) }, nil},
	{"css.ScrollSnapStop", "css", "scroll-snap-stop:", "", func(v []any) aitch.Node { return css.ScrollSnapStop(v...) }, nil},
	{"css.ScrollSnapType", "css", "scroll-snap-type:", "", func(v []any) aitch.Node { return css.ScrollSnapType(v...) }, nil},
	{"css.Speak", "css", "speak:", "", func(v []any) aitch.Node { return css.Speak(v...) }, nil},
	{"css.TabSize", "css", "tab-size:", "", func(v []any) aitch.Node { return css.TabSize(v...) }, nil},
	{"css.TableLayout", "css", "table-layout:", "", func(v []any) aitch.Node { return css.TableLayout(v...) }, nil},
	{"css.TextAlign", "css", "text-align:", "", func(v []any) aitch.Node { return css.TextAlign(v...) }, nil},
	{"css.TextDecoration", "css", "text-decoration:", "", func(v []any) aitch.Node { return css.TextDecoration(v...) }, nil},
	{"css.TextTransform", "css", "text-transform:", "", func(v []any) aitch.Node { return css.TextTransform(v...) }, nil},
	{"css.Top", "css", "top:", "", func(v []any) aitch.Node { return css.Top(v...) }, nil},
	{"css.TouchAction", "css", "touch-action:", "", func(v []any) aitch.Node { return css.TouchAction(v...) }, nil},
	{"css.Transform", "css", "transform:", "", func(v []any) aitch.Node { return css.Transform(v...) }, nil},
	{"css.Transition", "css", "transition:", "", func(v []any) aitch.Node { return css.Transition(v...) }, nil},
	{"css.TransitionDelay", "css", "transition-delay:", "", func(v []any) aitch.Node { return css.TransitionDelay(v...) }, nil},
	{"css.TransitionDuration", "css", "transition-duration:", "", func(v []any) aitch.Node { return css.TransitionDuration(v...) }, nil},
	{"css.TransitionProperty", "css", "transition-property:", "", func(v []any) aitch.Node { return css.TransitionProperty(v...) }, nil},
	{"css.TransitionTimingFunction", "css", "transition-timing-function:", "", func(v []any) aitch.Node { return css.TransitionTimingFunction(v...) }, nil},
	{"css.UserSelect", "css", "user-select:", "", func(v []any) aitch.Node { return css.UserSelect(v...) }, nil},
	{"css.VMax", "unit", "vmax", "", nil, func(v []any) aitch.Value { return css.VMax(v...) }},
	{"css.VMin", "unit", "vmin", "", nil, func(v []any) aitch.Value { return css.VMin(v...) }},
	{"css.Vh", "unit", "vh", "", nil, func(v []any) aitch.Value { return css.Vh(v...) }},
	{"css.Visibility", "css", "visibility:", "", func(v []any) aitch.Node { return css.Visibility(v...) }, nil},
	{"css.Vw", "unit", "vw", "", nil, func(v []any) aitch.Value { return css.Vw(v...) }},
	{"css.WhiteSpace", "css", "white-space:", "", func(v []any) aitch.Node { return css.WhiteSpace(v...) }, nil},
	{"css.Width", "css", "width:", "", func(v []any) aitch.Node { return css.Width(v...) }, nil},
	{"css.WillChange", "css", "will-change:", "", func(v []any) aitch.Node { return css.WillChange(v...) }, nil},
	{"css.WordBreak", "css", "word-break:", "", func(v []any) aitch.Node { return css.WordBreak(v...) }, nil},
	{"css.ZIndex", "css", "z-index:", "", func(v []any) aitch.Node { return css.ZIndex(v...) }, nil},
	{"html.A", "element", "a", "", func(v []any) aitch.Node { return html.A(v...) }, nil},
	{"html.Abbr", "element", "abbr", "", func(v []any) aitch.Node { return html.Abbr(v...) }, nil},
	{"html.Accept", "attribute", "accept", "", func(v []any) aitch.Node { return html.Accept(v...) }, nil},
	{"html.AccessKey", "attribute", "accesskey", "", func(v []any) aitch.Node { return html.AccessKey(v...) }, nil},
	{"html.Action", "attribute", "action", "", func(v []any) aitch.Node { return html.Action(v...) }, nil},
	{"html.Address", "element", "address", "", func(v []any) aitch.Node { return html.Address(v...) }, nil},
	{"html.AllowFullScreen", "boolean", "allowfullscreen", "", func(v []any) aitch.Node { return html.AllowFullScreen() }, nil},
	{"html.Alt", "attribute", "alt", "", func(v []any) aitch.Node { return html.Alt(v...) }, nil},
	{"html.Area", "void", "area", "", func(v []any) aitch.Node { return html.Area(v...) }, nil},
	{"html.AriaAtomic", "attribute", "aria-atomic", "", func(v []any) aitch.Node { return html.AriaAtomic(v...) }, nil},
	{"html.AriaBusy", "attribute", "aria-busy", "", func(v []any) aitch.Node { return html.AriaBusy(v...) }, nil},
	{"html.AriaChecked", "attribute", "aria-checked", "", func(v []any) aitch.Node { return html.AriaChecked(v...) }, nil},
	{"html.AriaControls", "attribute", "aria-controls", "", func(v []any) aitch.Node { return html.AriaControls(v...) }, nil},
	{"html.AriaDescribedBy", "attribute", "aria-describedby", "", func(v []any) aitch.Node { return html.AriaDescribedBy(v...) }, nil},
	{"html.AriaDisabled", "attribute", "aria-disabled", "", func(v []any) aitch.Node { return html.AriaDisabled(v...) }, nil},
	{"html.AriaExpanded", "attribute", "aria-expanded", "", func(v []any) aitch.Node { return html.AriaExpanded(v...) }, nil},
	{"html.AriaFlowTo", "attribute", "aria-flowto", "", func(v []any) aitch.Node { return html.AriaFlowTo(v...) }, nil},
	{"html.AriaHidden", "attribute", "aria-hidden", "", func(v []any) aitch.Node { return html.AriaHidden(v...) }, nil},
	{"html.AriaInvalid", "attribute", "aria-invalid", "", func(v []any) aitch.Node { return html.AriaInvalid(v...) }, nil},
	{"html.AriaLabel", "attribute", "aria-label", "", func(v []any) aitch.Node { return html.AriaLabel(v...) }, nil},
	{"html.AriaLabelledBy", "attribute", "aria-labelledby", "", func(v []any) aitch.Node { return html.AriaLabelledBy(v...) }, nil},
	{"html.AriaLive", "attribute", "aria-live", "", func(v []any) aitch.Node { return html.AriaLive(v...) }, nil},
	{"html.AriaOwns", "attribute", "aria-owns", "", func(v []any) aitch.Node { return html.AriaOwns(v...) }, nil},
	{"html.AriaPlaceholder", "attribute", "aria-placeholder", "", func(v []any) aitch.Node { return html.AriaPlaceholder(v...) }, nil},
	{"html.AriaPosInSet", "attribute", "aria-posinset", "", func(v []any) aitch.Node { return html.AriaPosInSet(v...) }, nil},
	{"html.AriaPressed", "attribute", "aria-pressed", "", func(v []any) aitch.Node { return html.AriaPressed(v...) }, nil},
	{"html.AriaReadonly", "attribute", "aria-readonly", "", func(v []any) aitch.Node { return html.AriaReadonly(v...) }, nil},
	{"html.AriaRelevant", "attribute", "aria-relevant", "", func(v []any) aitch.Node { return html.AriaRelevant(v...) }, nil},
	{"html.AriaRequired", "attribute", "aria-required", "", func(v []any) aitch.Node { return html.AriaRequired(v...) }, nil},
	{"html.AriaSelected", "attribute", "aria-selected", "", func(v []any) aitch.Node { return html.AriaSelected(v...) }, nil},
	{"html.AriaSetSize", "attribute", "aria-setsize", "", func(v []any) aitch.Node { return html.AriaSetSize(v...) }, nil},
	{"html.AriaValueMax", "attribute", "aria-valuemax", "", func(v []any) aitch.Node { return html.AriaValueMax(v...) }, nil},
	{"html.AriaValueMin", "attribute", "aria-valuemin", "", func(v []any) aitch.Node { return html.AriaValueMin(v...) }, nil},
	{"html.AriaValueNow", "attribute", "aria-valuenow", "", func(v []any) aitch.Node { return html.AriaValueNow(v...) }, nil},
	{"html.AriaValueText", "attribute", "aria-valuetext", "", func(v []any) aitch.Node { return html.AriaValueText(v...) }, nil},
	{"html.Article", "element", "article", "", func(v []any) aitch.Node { return html.Article(v...) }, nil},
	{"html.As", "attribute", "as", "", func(v []any) aitch.Node { return html.As(v...) }, nil},
	{"html.Aside", "element", "aside", "", func(v []any) aitch.Node { return html.Aside(v...) }, nil},
	{"html.Async", "boolean", "async", "", func(v []any) aitch.Node { return html.Async() }, nil},
	{"html.Audio", "element", "audio", "", func(v []any) aitch.Node { return html.Audio(v...) }, nil},
	{"html.AutoCapitalize", "attribute", "autocapitalize", "", func(v []any) aitch.Node { return html.AutoCapitalize(v...) }, nil},
	{"html.AutoComplete", "attribute", "autocomplete", "", func(v []any) aitch.Node { return html.AutoComplete(v...) }, nil},
	{"html.AutoCorrect", "attribute", "autocorrect", "", func(v []any) aitch.Node { return html.AutoCorrect(v...) }, nil},
	{"html.AutoFocus", "boolean", "autofocus", "", func(v []any) aitch.Node { return html.AutoFocus() }, nil},
	{"html.AutoPlay", "boolean", "autoplay", "", func(v []any) aitch.Node { return html.AutoPlay() }, nil},
	{"html.B", "element", "b", "", func(v []any) aitch.Node { return html.B(v...) }, nil},
	{"html.Base", "void", "base", "", func(v []any) aitch.Node { return html.Base(v...) }, nil},
	{"html.Bdi", "element", "bdi", "", func(v []any) aitch.Node { return html.Bdi(v...) }, nil},
	{"html.Bdo", "element", "bdo", "", func(v []any) aitch.Node { return html.Bdo(v...) }, nil},
	{"html.BlockQuote", "element", "blockquote", "", func(v []any) aitch.Node { return html.BlockQuote(v...) }, nil},
	{"html.Body", "element", "body", "", func(v []any) aitch.Node { return html.Body(v...) }, nil},
	{"html.Br", "void", "br", "", func(v []any) aitch.Node { return html.Br(v...) }, nil},
	{"html.Button", "element", "button", "", func(v []any) aitch.Node { return html.Button(v...) }, nil},
	{"html.Canvas", "element", "canvas", "", func(v []any) aitch.Node { return html.Canvas(v...) }, nil},
	{"html.Caption", "element", "caption", "", func(v []any) aitch.Node { return html.Caption(v...) }, nil},
	{"html.Charset", "attribute", "charset", "", func(v []any) aitch.Node { return html.Charset(v...) }, nil},
	{"html.Checked", "boolean", "checked", "", func(v []any) aitch.Node { return html.Checked() }, nil},
	{"html.Cite", "element", "cite", "", func(v []any) aitch.Node { return html.Cite(v...) }, nil},
	{"html.CiteAttr", "attribute", "cite", "", func(v []any) aitch.Node { return html.CiteAttr(v...) }, nil},
	{"html.Class", "delimited", "class", " ", func(v []any) aitch.Node { return html.Class(v...) }, nil},
	{"html.Code", "element", "code", "", func(v []any) aitch.Node { return html.Code(v...) }, nil},
	{"html.Col", "void", "col", "", func(v []any) aitch.Node { return html.Col(v...) }, nil},
	{"html.ColGroup", "element", "colgroup", "", func(v []any) aitch.Node { return html.ColGroup(v...) }, nil},
	{"html.ColSpan", "attribute", "colspan", "", func(v []any) aitch.Node { return html.ColSpan(v...) }, nil},
	{"html.Cols", "attribute", "cols", "", func(v []any) aitch.Node { return html.Cols(v...) }, nil},
	{"html.Content", "attribute", "content", "", func(v []any) aitch.Node { return html.Content(v...) }, nil},
	{"html.ContentEditable", "attribute", "contenteditable", "", func(v []any) aitch.Node { return html.ContentEditable(v...) }, nil},
	{"html.Controls", "boolean", "controls", "", func(v []any) aitch.Node { return html.Controls() }, nil},
	{"html.CrossOrigin", "attribute", "crossorigin", "", func(v []any) aitch.Node { return html.CrossOrigin(v...) }, nil},
	{"html.DataElement", "element", "data", "", func(v []any) aitch.Node { return html.DataElement(v...) }, nil},
	{"html.DataList", "element", "datalist", "", func(v []any) aitch.Node { return html.DataList(v...) }, nil},
	{"html.DateTime", "attribute", "datetime", "", func(v []any) aitch.Node { return html.DateTime(v...) }, nil},
	{"html.Dd", "element", "dd", "", func(v []any) aitch.Node { return html.Dd(v...) }, nil},
	{"html.Default", "boolean", "default", "", func(v []any) aitch.Node { return html.Default() }, nil},
	{"html.Defer", "boolean", "defer", "", func(v []any) aitch.Node { return html.Defer() }, nil},
	{"html.Del", "element", "del", "", func(v []any) aitch.Node { return html.Del(v...) }, nil},
	{"html.Details", "element", "details", "", func(v []any) aitch.Node { return html.Details(v...) }, nil},
	{"html.Dfn", "element", "dfn", "", func(v []any) aitch.Node { return html.Dfn(v...) }, nil},
	{"html.Dialog", "element", "dialog", "", func(v []any) aitch.Node { return html.Dialog(v...) }, nil},
	{"html.Dir", "attribute", "dir", "", func(v []any) aitch.Node { return html.Dir(v...) }, nil},
	{"html.Disabled", "boolean", "disabled", "", func(v []any) aitch.Node { return html.Disabled() }, nil},
	{"html.Div", "element", "div", "", func(v []any) aitch.Node { return html.Div(v...) }, nil},
	{"html.Dl", "element", "dl", "", func(v []any) aitch.Node { return html.Dl(v...) }, nil},
	{"html.Download", "attribute", "download", "", func(v []any) aitch.Node { return html.Download(v...) }, nil},
	{"html.Draggable", "attribute", "draggable", "", func(v []any) aitch.Node { return html.Draggable(v...) }, nil},
	{"html.Dt", "element", "dt", "", func(v []any) aitch.Node { return html.Dt(v...) }, nil},
	{"html.Em", "element", "em", "", func(v []any) aitch.Node { return html.Em(v...) }, nil},
	{"html.Embed", "void", "embed", "", func(v []any) aitch.Node { return html.Embed(v...) }, nil},
	{"html.EncType", "attribute", "enctype", "", func(v []any) aitch.Node { return html.EncType(v...) }, nil},
	{"html.EnterKeyHint", "attribute", "enterkeyhint", "", func(v []any) aitch.Node { return html.EnterKeyHint(v...) }, nil},
	{"html.ExportParts", "attribute", "exportparts", "", func(v []any) aitch.Node { return html.ExportParts(v...) }, nil},
	{"html.FieldSet", "element", "fieldset", "", func(v []any) aitch.Node { return html.FieldSet(v...) }, nil},
	{"html.FigCaption", "element", "figcaption", "", func(v []any) aitch.Node { return html.FigCaption(v...) }, nil},
	{"html.Figure", "element", "figure", "", func(v []any) aitch.Node { return html.Figure(v...) }, nil},
	{"html.Footer", "element", "footer", "", func(v []any) aitch.Node { return html.Footer(v...) }, nil},
	{"html.For", "attribute", "for", "", func(v []any) aitch.Node { return html.For(v...) }, nil},
	{"html.Form", "element", "form", "", func(v []any) aitch.Node { return html.Form(v...) }, nil},
	{"html.FormAttr", "attribute", "form", "", func(v []any) aitch.Node { return html.FormAttr(v...) }, nil},
	{"html.FormNoValidate", "boolean", "formnovalidate", "", func(v []any) aitch.Node { return html.FormNoValidate() }, nil},
	{"html.H1", "element", "h1", "", func(v []any) aitch.Node { return html.H1(v...) }, nil},
	{"html.H2", "element", "h2", "", func(v []any) aitch.Node { return html.H2(v...) }, nil},
	{"html.H3", "element", "h3", "", func(v []any) aitch.Node { return html.H3(v...) }, nil},
	{"html.H4", "element", "h4", "", func(v []any) aitch.Node { return html.H4(v...) }, nil},
	{"html.H5", "element", "h5", "", func(v []any) aitch.Node { return html.H5(v...) }, nil},
	{"html.H6", "element", "h6", "", func(v []any) aitch.Node { return html.H6(v...) }, nil},
	{"html.HGroup", "element", "hgroup", "", func(v []any) aitch.Node { return html.HGroup(v...) }, nil},
	{"html.Head", "element", "head", "", func(v []any) aitch.Node { return html.Head(v...) }, nil},
	{"html.Header", "element", "header", "", func(v []any) aitch.Node { return html.Header(v...) }, nil},
	{"html.Height", "attribute", "height", "", func(v []any) aitch.Node { return html.Height(v...) }, nil},
	{"html.Hidden", "boolean", "hidden", "", func(v []any) aitch.Node { return html.Hidden() }, nil},
	{"html.Hr", "void", "hr", "", func(v []any) aitch.Node { return html.Hr(v...) }, nil},
	{"html.Href", "attribute", "href", "", func(v []any) aitch.Node { return html.Href(v...) }, nil},
	{"html.Html", "element", "html", "", func(v []any) aitch.Node { return html.Html(v...) }, nil},
	{"html.I", "element", "i", "", func(v []any) aitch.Node { return html.I(v...) }, nil},
	{"html.IFrame", "element", "iframe", "", func(v []any) aitch.Node { return html.IFrame(v...) }, nil},
	{"html.Id", "attribute", "id", "", func(v []any) aitch.Node { return html.Id(v...) }, nil},
	{"html.Img", "void", "img", "", func(v []any) aitch.Node { return html.Img(v...) }, nil},
	{"html.Inert", "boolean", "inert", "", func(v []any) aitch.Node { return html.Inert() }, nil},
	{"html.Input", "void", "input", "", func(v []any) aitch.Node { return html.Input(v...) }, nil},
	{"html.InputMode", "attribute", "inputmode", "", func(v []any) aitch.Node { return html.InputMode(v...) }, nil},
	{"html.Ins", "element", "ins", "", func(v []any) aitch.Node { return html.Ins(v...) }, nil},
	{"html.Integrity", "attribute", "integrity", "", func(v []any) aitch.Node { return html.Integrity(v...) }, nil},
	{"html.Is", "attribute", "is", "", func(v []any) aitch.Node { return html.Is(v...) }, nil},
	{"html.IsMap", "boolean", "ismap", "", func(v []any) aitch.Node { return html.IsMap() }, nil},
	{"html.ItemId", "attribute", "itemid", "", func(v []any) aitch.Node { return html.ItemId(v...) }, nil},
	{"html.ItemProp", "attribute", "itemprop", "", func(v []any) aitch.Node { return html.ItemProp(v...) }, nil},
	{"html.ItemRef", "attribute", "itemref", "", func(v []any) aitch.Node { return html.ItemRef(v...) }, nil},
	{"html.ItemScope", "boolean", "itemscope", "", func(v []any) aitch.Node { return html.ItemScope() }, nil},
	{"html.ItemType", "attribute", "itemtype", "", func(v []any) aitch.Node { return html.ItemType(v...) }, nil},
	{"html.Kbd", "element", "kbd", "", func(v []any) aitch.Node { return html.Kbd(v...) }, nil},
	{"html.Label", "element", "label", "", func(v []any) aitch.Node { return html.Label(v...) }, nil},
	{"html.Lang", "attribute", "lang", "", func(v []any) aitch.Node { return html.Lang(v...) }, nil},
	{"html.Legend", "element", "legend", "", func(v []any) aitch.Node { return html.Legend(v...) }, nil},
	{"html.Li", "element", "li", "", func(v []any) aitch.Node { return html.Li(v...) }, nil},
	{"html.Link", "void", "link", "", func(v []any) aitch.Node { return html.Link(v...) }, nil},
	{"html.List", "attribute", "list", "", func(v []any) aitch.Node { return html.List(v...) }, nil},
	{"html.Loading", "attribute", "loading", "", func(v []any) aitch.Node { return html.Loading(v...) }, nil},
	{"html.Loop", "boolean", "loop", "", func(v []any) aitch.Node { return html.Loop() }, nil},
	{"html.Main", "element", "main", "", func(v []any) aitch.Node { return html.Main(v...) }, nil},
	{"html.Map", "element", "map", "", func(v []any) aitch.Node { return html.Map(v...) }, nil},
	{"html.Mark", "element", "mark", "", func(v []any) aitch.Node { return html.Mark(v...) }, nil},
	{"html.Max", "attribute", "max", "", func(v []any) aitch.Node { return html.Max(v...) }, nil},
	{"html.MaxLength", "attribute", "maxlength", "", func(v []any) aitch.Node { return html.MaxLength(v...) }, nil},
	{"html.Menu", "element", "menu", "", func(v []any) aitch.Node { return html.Menu(v...) }, nil},
	{"html.Meta", "void", "meta", "", func(v []any) aitch.Node { return html.Meta(v...) }, nil},
	{"html.Meter", "element", "meter", "", func(v []any) aitch.Node { return html.Meter(v...) }, nil},
	{"html.Method", "attribute", "method", "", func(v []any) aitch.Node { return html.Method(v...) }, nil},
	{"html.Min", "attribute", "min", "", func(v []any) aitch.Node { return html.Min(v...) }, nil},
	{"html.MinLength", "attribute", "minlength", "", func(v []any) aitch.Node { return html.MinLength(v...) }, nil},
	{"html.Multiple", "boolean", "multiple", "", func(v []any) aitch.Node { return html.Multiple() }, nil},
	{"html.Muted", "boolean", "muted", "", func(v []any) aitch.Node { return html.Muted() }, nil},
	{"html.Name", "attribute", "name", "", func(v []any) aitch.Node { return html.Name(v...) }, nil},
	{"html.Nav", "element", "nav", "", func(v []any) aitch.Node { return html.Nav(v...) }, nil},
	{"html.NoModule", "boolean", "nomodule", "", func(v []any) aitch.Node { return html.NoModule() }, nil},
	{"html.NoScript", "element", "noscript", "", func(v []any) aitch.Node { return html.NoScript(v...) }, nil},
	{"html.NoValidate", "boolean", "novalidate", "", func(v []any) aitch.Node { return html.NoValidate() }, nil},
	{"html.Nonce", "attribute", "nonce", "", func(v []any) aitch.Node { return html.Nonce(v...) }, nil},
	{"html.Object", "element", "object", "", func(v []any) aitch.Node { return html.Object(v...) }, nil},
	{"html.Ol", "element", "ol", "", func(v []any) aitch.Node { return html.Ol(v...) }, nil},
	{"html.OnAbort", "attribute", "onabort", "", func(v []any) aitch.Node { return html.OnAbort(v...) }, nil},
	{"html.OnAnimationEnd", "attribute", "onanimationend", "", func(v []any) aitch.Node { return html.OnAnimationEnd(v...) }, nil},
	{"html.OnAnimationIteration", "attribute", "onanimationiteration", "", func(v []any) aitch.Node { return html.OnAnimationIteration(v...) }, nil},
	{"html.OnAnimationStart", "attribute", "onanimationstart", "", func(v []any) aitch.Node { return html.OnAnimationStart(v...) }, nil},
	{"html.OnBeforeInput", "attribute", "onbeforeinput", "", func(v []any) aitch.Node { return html.OnBeforeInput(v...) }, nil},
	{"html.OnBeforeUnload", "attribute", "onbeforeunload", "", func(v []any) aitch.Node { return html.OnBeforeUnload(v...) }, nil},
	{"html.OnBlur", "attribute", "onblur", "", func(v []any) aitch.Node { return html.OnBlur(v...) }, nil},
	{"html.OnCanPlay", "attribute", "oncanplay", "", func(v []any) aitch.Node { return html.OnCanPlay(v...) }, nil},
	{"html.OnCanPlayThrough", "attribute", "oncanplaythrough", "", func(v []any) aitch.Node { return html.OnCanPlayThrough(v...) }, nil},
	{"html.OnChange", "attribute", "onchange", "", func(v []any) aitch.Node { return html.OnChange(v...) }, nil},
	{"html.OnClick", "attribute", "onclick", "", func(v []any) aitch.Node { return html.OnClick(v...) }, nil},
	{"html.OnContextMenu", "attribute", "oncontextmenu", "", func(v []any) aitch.Node { return html.OnContextMenu(v...) }, nil},
	{"html.OnCopy", "attribute", "oncopy", "", func(v []any) aitch.Node { return html.OnCopy(v...) }, nil},
	{"html.OnCut", "attribute", "oncut", "", func(v []any) aitch.Node { return html.OnCut(v...) }, nil},
	{"html.OnDblClick", "attribute", "ondblclick", "", func(v []any) aitch.Node { return html.OnDblClick(v...) }, nil},
	{"html.OnDrag", "attribute", "ondrag", "", func(v []any) aitch.Node { return html.OnDrag(v...) }, nil},
	{"html.OnDragEnd", "attribute", "ondragend", "", func(v []any) aitch.Node { return html.OnDragEnd(v...) }, nil},
	{"html.OnDragEnter", "attribute", "ondragenter", "", func(v []any) aitch.Node { return html.OnDragEnter(v...) }, nil},
	{"html.OnDragLeave", "attribute", "ondragleave", "", func(v []any) aitch.Node { return html.OnDragLeave(v...) }, nil},
	{"html.OnDragOver", "attribute", "ondragover", "", func(v []any) aitch.Node { return html.OnDragOver(v...) }, nil},
	{"html.OnDragStart", "attribute", "ondragstart", "", func(v []any) aitch.Node { return html.OnDragStart(v...) }, nil},
	{"html.OnDrop", "attribute", "ondrop", "", func(v []any) aitch.Node { return html.OnDrop(v...) }, nil},
	{"html.OnDurationChange", "attribute", "ondurationchange", "", func(v []any) aitch.Node { return html.OnDurationChange(v...) }, nil},
	{"html.OnEnded", "attribute", "onended", "", func(v []any) aitch.Node { return html.OnEnded(v...) }, nil},
	{"html.OnError", "attribute", "onerror", "", func(v []any) aitch.Node { return html.OnError(v...) }, nil},
	{"html.OnFocus", "attribute", "onfocus", "", func(v []any) aitch.Node { return html.OnFocus(v...) }, nil},
	{"html.OnFormData", "attribute", "onformdata", "", func(v []any) aitch.Node { return html.OnFormData(v...) }, nil},
	{"html.OnHashChange", "attribute", "onhashchange", "", func(v []any) aitch.Node { return html.OnHashChange(v...) }, nil},
	{"html.OnInput", "attribute", "oninput", "", func(v []any) aitch.Node { return html.OnInput(v...) }, nil},
	{"html.OnInvalid", "attribute", "oninvalid", "", func(v []any) aitch.Node { return html.OnInvalid(v...) }, nil},
	{"html.OnKeyDown", "attribute", "onkeydown", "", func(v []any) aitch.Node { return html.OnKeyDown(v...) }, nil},
	{"html.OnKeyPress", "attribute", "onkeypress", "", func(v []any) aitch.Node { return html.OnKeyPress(v...) }, nil},
	{"html.OnKeyUp", "attribute", "onkeyup", "", func(v []any) aitch.Node { return html.OnKeyUp(v...) }, nil},
	{"html.OnLoad", "attribute", "onload", "", func(v []any) aitch.Node { return html.OnLoad(v...) }, nil},
	{"html.OnLoadedData", "attribute", "onloadeddata", "", func(v []any) aitch.Node { return html.OnLoadedData(v...) }, nil},
	{"html.OnLoadedMetadata", "attribute", "onloadedmetadata", "", func(v []any) aitch.Node { return html.OnLoadedMetadata(v...) }, nil},
	{"html.OnMouseDown", "attribute", "onmousedown", "", func(v []any) aitch.Node { return html.OnMouseDown(v...) }, nil},
	{"html.OnMouseEnter", "attribute", "onmouseenter", "", func(v []any) aitch.Node { return html.OnMouseEnter(v...) }, nil},
	{"html.OnMouseLeave", "attribute", "onmouseleave", "", func(v []any) aitch.Node { return html.OnMouseLeave(v...) }, nil},
	{"html.OnMouseMove", "attribute", "onmousemove", "", func(v []any) aitch.Node { return html.OnMouseMove(v...) }, nil},
	{"html.OnMouseOut", "attribute", "onmouseout", "", func(v []any) aitch.Node { return html.OnMouseOut(v...) }, nil},
	{"html.OnMouseOver", "attribute", "onmouseover", "", func(v []any) aitch.Node { return html.OnMouseOver(v...) }, nil},
	{"html.OnMouseUp", "attribute", "onmouseup", "", func(v []any) aitch.Node { return html.OnMouseUp(v...) }, nil},
	{"html.OnPageHide", "attribute", "onpagehide", "", func(v []any) aitch.Node { return html.OnPageHide(v...) }, nil},
	{"html.OnPageShow", "attribute", "onpageshow", "", func(v []any) aitch.Node { return html.OnPageShow(v...) }, nil},
	{"html.OnPaste", "attribute", "onpaste", "", func(v []any) aitch.Node { return html.OnPaste(v...) }, nil},
	{"html.OnPause", "attribute", "onpause", "", func(v []any) aitch.Node { return html.OnPause(v...) }, nil},
	{"html.OnPlay", "attribute", "onplay", "", func(v []any) aitch.Node { return html.OnPlay(v...) }, nil},
	{"html.OnPlaying", "attribute", "onplaying", "", func(v []any) aitch.Node { return html.OnPlaying(v...) }, nil},
	{"html.OnPointerCancel", "attribute", "onpointercancel", "", func(v []any) aitch.Node { return html.OnPointerCancel(v...) }, nil},
	{"html.OnPointerDown", "attribute", "onpointerdown", "", func(v []any) aitch.Node { return html.OnPointerDown(v...) }, nil},
	{"html.OnPointerEnter", "attribute", "onpointerenter", "", func(v []any) aitch.Node { return html.OnPointerEnter(v...) }, nil},
	{"html.OnPointerLeave", "attribute", "onpointerleave", "", func(v []any) aitch.Node { return html.OnPointerLeave(v...) }, nil},
	{"html.OnPointerMove", "attribute", "onpointermove", "", func(v []any) aitch.Node { return html.OnPointerMove(v...) }, nil},
	{"html.OnPointerOut", "attribute", "onpointerout", "", func(v []any) aitch.Node { return html.OnPointerOut(v...) }, nil},
	{"html.OnPointerOver", "attribute", "onpointerover", "", func(v []any) aitch.Node { return html.OnPointerOver(v...) }, nil},
	{"html.OnPointerUp", "attribute", "onpointerup", "", func(v []any) aitch.Node { return html.OnPointerUp(v...) }, nil},
	{"html.OnPopState", "attribute", "onpopstate", "", func(v []any) aitch.Node { return html.OnPopState(v...) }, nil},
	{"html.OnProgress", "attribute", "onprogress", "", func(v []any) aitch.Node { return html.OnProgress(v...) }, nil},
	{"html.OnRateChange", "attribute", "onratechange", "", func(v []any) aitch.Node { return html.OnRateChange(v...) }, nil},
	{"html.OnReset", "attribute", "onreset", "", func(v []any) aitch.Node { return html.OnReset(v...) }, nil},
	{"html.OnResize", "attribute", "onresize", "", func(v []any) aitch.Node { return html.OnResize(v...) }, nil},
	{"html.OnScroll", "attribute", "onscroll", "", func(v []any) aitch.Node { return html.OnScroll(v...) }, nil},
	{"html.OnSeeked", "attribute", "onseeked", "", func(v []any) aitch.Node { return html.OnSeeked(v...) }, nil},
	{"html.OnSeeking", "attribute", "onseeking", "", func(v []any) aitch.Node { return html.OnSeeking(v...) }, nil},
	{"html.OnSelect", "attribute", "onselect", "", func(v []any) aitch.Node { return html.OnSelect(v...) }, nil},
	{"html.OnSlotChange", "attribute", "onslotchange", "", func(v []any) aitch.Node { return html.OnSlotChange(v...) }, nil},
	{"html.OnStalled", "attribute", "onstalled", "", func(v []any) aitch.Node { return html.OnStalled(v...) }, nil},
	{"html.OnSubmit", "attribute", "onsubmit", "", func(v []any) aitch.Node { return html.OnSubmit(v...) }, nil},
	{"html.OnSuspend", "attribute", "onsuspend", "", func(v []any) aitch.Node { return html.OnSuspend(v...) }, nil},
	{"html.OnTimeUpdate", "attribute", "ontimeupdate", "", func(v []any) aitch.Node { return html.OnTimeUpdate(v...) }, nil},
	{"html.OnToggle", "attribute", "ontoggle", "", func(v []any) aitch.Node { return html.OnToggle(v...) }, nil},
	{"html.OnTouchCancel", "attribute", "ontouchcancel", "", func(v []any) aitch.Node { return html.OnTouchCancel(v...) }, nil},
	{"html.OnTouchEnd", "attribute", "ontouchend", "", func(v []any) aitch.Node { return html.OnTouchEnd(v...) }, nil},
	{"html.OnTouchMove", "attribute", "ontouchmove", "", func(v []any) aitch.Node { return html.OnTouchMove(v...) }, nil},
	{"html.OnTouchStart", "attribute", "ontouchstart", "", func(v []any) aitch.Node { return html.OnTouchStart(v...) }, nil},
	{"html.OnTransitionEnd", "attribute", "ontransitionend", "", func(v []any) aitch.Node { return html.OnTransitionEnd(v...) }, nil},
	{"html.OnUnload", "attribute", "onunload", "", func(v []any) aitch.Node { return html.OnUnload(v...) }, nil},
	{"html.OnVolumeChange", "attribute", "onvolumechange", "", func(v []any) aitch.Node { return html.OnVolumeChange(v...) }, nil},
	{"html.OnWaiting", "attribute", "onwaiting", "", func(v []any) aitch.Node { return html.OnWaiting(v...) }, nil},
	{"html.Open", "boolean", "open", "", func(v []any) aitch.Node { return html.Open() }, nil},
	{"html.OptGroup", "element", "optgroup", "", func(v []any) aitch.Node { return html.OptGroup(v...) }, nil},
	{"html.Option", "element", "option", "", func(v []any) aitch.Node { return html.Option(v...) }, nil},
	{"html.Output", "element", "output", "", func(v []any) aitch.Node { return html.Output(v...) }, nil},
	{"html.P", "element", "p", "", func(v []any) aitch.Node { return html.P(v...) }, nil},
	{"html.Para", "element", "p", "", func(v []any) aitch.Node { return html.Para(v...) }, nil},
	{"html.Param", "void", "param", "", func(v []any) aitch.Node { return html.Param(v...) }, nil},
	{"html.Part", "attribute", "part", "", func(v []any) aitch.Node { return html.Part(v...) }, nil},
	{"html.Pattern", "attribute", "pattern", "", func(v []any) aitch.Node { return html.Pattern(v...) }, nil},
	{"html.Picture", "element", "picture", "", func(v []any) aitch.Node { return html.Picture(v...) }, nil},
	{"html.Placeholder", "attribute", "placeholder", "", func(v []any) aitch.Node { return html.Placeholder(v...) }, nil},
	{"html.PlaysInline", "boolean", "playsinline", "", func(v []any) aitch.Node { return html.PlaysInline() }, nil},
	{"html.PopOver", "attribute", "popover", "", func(v []any) aitch.Node { return html.PopOver(v...) }, nil},
	{"html.PopOverTarget", "attribute", "popovertarget", "", func(v []any) aitch.Node { return html.PopOverTarget(v...) }, nil},
	{"html.PopOverTargetAction", "attribute", "popovertargetaction", "", func(v []any) aitch.Node { return html.PopOverTargetAction(v...) }, nil},
	{"html.Poster", "attribute", "poster", "", func(v []any) aitch.Node { return html.Poster(v...) }, nil},
	{"html.Pre", "element", "pre", "", func(v []any) aitch.Node { return html.Pre(v...) }, nil},
	{"html.Preload", "attribute", "preload", "", func(v []any) aitch.Node { return html.Preload(v...) }, nil},
	{"html.Progress", "element", "progress", "", func(v []any) aitch.Node { return html.Progress(v...) }, nil},
	{"html.Q", "element", "q", "", func(v []any) aitch.Node { return html.Q(v...) }, nil},
	{"html.ReadOnly", "boolean", "readonly", "", func(v []any) aitch.Node { return html.ReadOnly() }, nil},
	{"html.ReferrerPolicy", "attribute", "referrerpolicy", "", func(v []any) aitch.Node { return html.ReferrerPolicy(v...) }, nil},
	{"html.Rel", "attribute", "rel", "", func(v []any) aitch.Node { return html.Rel(v...) }, nil},
	{"html.Required", "boolean", "required", "", func(v []any) aitch.Node { return html.Required() }, nil},
	{"html.Reversed", "boolean", "reversed", "", func(v []any) aitch.Node { return html.Reversed() }, nil},
	{"html.Role", "attribute", "role", "", func(v []any) aitch.Node { return html.Role(v...) }, nil},
	{"html.RowSpan", "attribute", "rowspan", "", func(v []any) aitch.Node { return html.RowSpan(v...) }, nil},
	{"html.Rows", "attribute", "rows", "", func(v []any) aitch.Node { return html.Rows(v...) }, nil},
	{"html.Rp", "element", "rp", "", func(v []any) aitch.Node { return html.Rp(v...) }, nil},
	{"html.Rt", "element", "rt", "", func(v []any) aitch.Node { return html.Rt(v...) }, nil},
	{"html.Ruby", "element", "ruby", "", func(v []any) aitch.Node { return html.Ruby(v...) }, nil},
	{"html.S", "element", "s", "", func(v []any) aitch.Node { return html.S(v...) }, nil},
	{"html.Samp", "element", "samp", "", func(v []any) aitch.Node { return html.Samp(v...) }, nil},
	{"html.Script", "element", "script", "", func(v []any) aitch.Node { return html.Script(v...) }, nil},
	{"html.Search", "element", "search", "", func(v []any) aitch.Node { return html.Search(v...) }, nil},
	{"html.Section", "element", "section", "", func(v []any) aitch.Node { return html.Section(v...) }, nil},
	{"html.Select", "element", "select", "", func(v []any) aitch.Node { return html.Select(v...) }, nil},
	{"html.Selected", "boolean", "selected", "", func(v []any) aitch.Node { return html.Selected() }, nil},
	{"html.Slot", "element", "slot", "", func(v []any) aitch.Node { return html.Slot(v...) }, nil},
	{"html.SlotAttr", "attribute", "slot", "", func(v []any) aitch.Node { return html.SlotAttr(v...) }, nil},
	{"html.Small", "element", "small", "", func(v []any) aitch.Node { return html.Small(v...) }, nil},
	{"html.Source", "void", "source", "", func(v []any) aitch.Node { return html.Source(v...) }, nil},
	{"html.Span", "element", "span", "", func(v []any) aitch.Node { return html.Span(v...) }, nil},
	{"html.Spellcheck", "boolean", "spellcheck", "", func(v []any) aitch.Node { return html.Spellcheck() }, nil},
	{"html.Src", "attribute", "src", "", func(v []any) aitch.Node { return html.Src(v...) }, nil},
	{"html.SrcSet", "attribute", "srcset", "", func(v []any) aitch.Node { return html.SrcSet(v...) }, nil},
	{"html.Step", "attribute", "step", "", func(v []any) aitch.Node { return html.Step(v...) }, nil},
	{"html.Strong", "element", "strong", "", func(v []any) aitch.Node { return html.Strong(v...) }, nil},
	{"html.Style", "delimited", "style", "; ", func(v []any) aitch.Node { return html.Style(v...) }, nil},
	{"html.StyleElement", "element", "style", "", func(v []any) aitch.Node { return html.StyleElement(v...) }, nil},
	{"html.Sub", "element", "sub", "", func(v []any) aitch.Node { return html.Sub(v...) }, nil},
	{"html.Summary", "element", "summary", "", func(v []any) aitch.Node { return html.Summary(v...) }, nil},
	{"html.Sup", "element", "sup", "", func(v []any) aitch.Node { return html.Sup(v...) }, nil},
	{"html.TBody", "element", "tbody", "", func(v []any) aitch.Node { return html.TBody(v...) }, nil},
	{"html.TFoot", "element", "tfoot", "", func(v []any) aitch.Node { return html.TFoot(v...) }, nil},
	{"html.THead", "element", "thead", "", func(v []any) aitch.Node { return html.THead(v...) }, nil},
	{"html.TabIndex", "attribute", "tabindex", "", func(v []any) aitch.Node { return html.TabIndex(v...) }, nil},
	{"html.Table", "element", "table", "", func(v []any) aitch.Node { return html.Table(v...) }, nil},
	{"html.Target", "attribute", "target", "", func(v []any) aitch.Node { return html.Target(v...) }, nil},
	{"html.Td", "element", "td", "", func(v []any) aitch.Node { return html.Td(v...) }, nil},
	{"html.Template", "element", "template", "", func(v []any) aitch.Node { return html.Template(v...) }, nil},
	{"html.Textarea", "element", "textarea", "", func(v []any) aitch.Node { return html.Textarea(v...) }, nil},
	{"html.Th", "element", "th", "", func(v []any) aitch.Node { return html.Th(v...) }, nil},
	{"html.Time", "element", "time", "", func(v []any) aitch.Node { return html.Time(v...) }, nil},
	{"html.Title", "attribute", "title", "", func(v []any) aitch.Node { return html.Title(v...) }, nil},
	{"html.TitleElement", "element", "title", "", func(v []any) aitch.Node { return html.TitleElement(v...) }, nil},
	{"html.Tr", "element", "tr", "", func(v []any) aitch.Node { return html.Tr(v...) }, nil},
	{"html.Track", "element", "track", "", func(v []any) aitch.Node { return html.Track(v...) }, nil},
	{"html.Translate", "boolean", "translate", "", func(v []any) aitch.Node { return html.Translate() }, nil},
	{"html.Type", "attribute", "type", "", func(v []any) aitch.Node { return html.Type(v...) }, nil},
	{"html.U", "element", "u", "", func(v []any) aitch.Node { return html.U(v...) }, nil},
	{"html.Ul", "element", "ul", "", func(v []any) aitch.Node { return html.Ul(v...) }, nil},
	{"html.Value", "attribute", "value", "", func(v []any) aitch.Node { return html.Value(v...) }, nil},
	{"html.Var", "element", "var", "", func(v []any) aitch.Node { return html.Var(v...) }, nil},
	{"html.Video", "element", "video", "", func(v []any) aitch.Node { return html.Video(v...) }, nil},
	{"html.Wbr", "void", "wbr", "", func(v []any) aitch.Node { return html.Wbr(v...) }, nil},
	{"html.Width", "attribute", "width", "", func(v []any) aitch.Node { return html.Width(v...) }, nil},
	{"html.WritingSuggestions", "attribute", "writingsuggestions", "", func(v []any) aitch.Node { return html.WritingSuggestions(v...) }, nil},
	{"htmx.Boost", "attribute", "hx-boost", "", func(v []any) aitch.Node { return htmx.Boost(v...) }, nil},
	{"htmx.Confirm", "attribute", "hx-confirm", "", func(v []any) aitch.Node { return htmx.Confirm(v...) }, nil},
	{"htmx.Delete", "attribute", "hx-delete", "", func(v []any) aitch.Node { return htmx.Delete(v...) }, nil},
	{"htmx.Disable", "attribute", "hx-disable", "", func(v []any) aitch.Node { return htmx.Disable(v...) }, nil},
	{"htmx.DisabledElt", "attribute", "hx-disabled-elt", "", func(v []any) aitch.Node { return htmx.DisabledElt(v...) }, nil},
	{"htmx.Disinherit", "delimited", "hx-disinherit", " ", func(v []any) aitch.Node { return htmx.Disinherit(v...) }, nil},
	{"htmx.Encoding", "attribute", "hx-encoding", "", func(v []any) aitch.Node { return htmx.Encoding(v...) }, nil},
	{"htmx.Ext", "attribute", "hx-ext", "", func(v []any) aitch.Node { return htmx.Ext(v...) }, nil},
	{"htmx.Get", "attribute", "hx-get", "", func(v []any) aitch.Node { return htmx.Get(v...) }, nil},
	{"htmx.HistoryElt", "attribute", "hx-history-elt", "", func(v []any) aitch.Node { return htmx.HistoryElt(v...) }, nil},
	{"htmx.Include", "attribute", "hx-include", "", func(v []any) aitch.Node { return htmx.Include(v...) }, nil},
	{"htmx.Indicator", "attribute", "hx-indicator", "", func(v []any) aitch.Node { return htmx.Indicator(v...) }, nil},
	{"htmx.Inherit", "delimited", "hx-inherit", " ", func(v []any) aitch.Node { return htmx.Inherit(v...) }, nil},
	{"htmx.OnAfterRequest", "attribute", "hx-on:after-request", "", func(v []any) aitch.Node { return htmx.OnAfterRequest(v...) }, nil},
	{"htmx.OnAfterSwap", "attribute", "hx-on:after-swap", "", func(v []any) aitch.Node { return htmx.OnAfterSwap(v...) }, nil},
	{"htmx.OnBeforeRequest", "attribute", "hx-on:before-request", "", func(v []any) aitch.Node { return htmx.OnBeforeRequest(v...) }, nil},
	{"htmx.OnBeforeSwap", "attribute", "hx-on:before-swap", "", func(v []any) aitch.Node { return htmx.OnBeforeSwap(v...) }, nil},
	{"htmx.OnResponseError", "attribute", "hx-on:response-error", "", func(v []any) aitch.Node { return htmx.OnResponseError(v...) }, nil},
	{"htmx.OnSend", "attribute", "hx-on:send", "", func(v []any) aitch.Node { return htmx.OnSend(v...) }, nil},
	{"htmx.OnSendError", "attribute", "hx-on:send-error", "", func(v []any) aitch.Node { return htmx.OnSendError(v...) }, nil},
	{"htmx.Params", "delimited", "hx-params", " ", func(v []any) aitch.Node { return htmx.Params(v...) }, nil},
	{"htmx.Patch", "attribute", "hx-patch", "", func(v []any) aitch.Node { return htmx.Patch(v...) }, nil},
	{"htmx.Post", "attribute", "hx-post", "", func(v []any) aitch.Node { return htmx.Post(v...) }, nil},
	{"htmx.Preserve", "attribute", "hx-preserve", "", func(v []any) aitch.Node { return htmx.Preserve(v...) }, nil},
	{"htmx.Prompt", "attribute", "hx-prompt", "", func(v []any) aitch.Node { return htmx.Prompt(v...) }, nil},
	{"htmx.PushURL", "attribute", "hx-push-url", "", func(v []any) aitch.Node { return htmx.PushURL(v...) }, nil},
	{"htmx.Put", "attribute", "hx-put", "", func(v []any) aitch.Node { return htmx.Put(v...) }, nil},
	{"htmx.ReplaceURL", "attribute", "hx-replace-url", "", func(v []any) aitch.Node { return htmx.ReplaceURL(v...) }, nil},
	{"htmx.Request", "attribute", "hx-request", "", func(v []any) aitch.Node { return htmx.Request(v...) }, nil},
	{"htmx.Select", "attribute", "hx-select", "", func(v []any) aitch.Node { return htmx.Select(v...) }, nil},
	{"htmx.Swap", "attribute", "hx-swap", "", func(v []any) aitch.Node { return htmx.Swap(v...) }, nil},
	{"htmx.SwapOob", "attribute", "hx-swap-oob", "", func(v []any) aitch.Node { return htmx.SwapOob(v...) }, nil},
	{"htmx.Sync", "attribute", "hx-sync", "", func(v []any) aitch.Node { return htmx.Sync(v...) }, nil},
	{"htmx.Target", "attribute", "hx-target", "", func(v []any) aitch.Node { return htmx.Target(v...) }, nil},
	{"htmx.Trigger", "delimited", "hx-trigger", " ", func(v []any) aitch.Node { return htmx.Trigger(v...) }, nil},
	{"htmx.Validate", "attribute", "hx-validate", "", func(v []any) aitch.Node { return htmx.Validate(v...) }, nil},
	{"htmx.Vals", "attribute", "hx-vals", "", func(v []any) aitch.Node { return htmx.Vals(v...) }, nil},
	{"htmx.Vars", "delimited", "hx-vars", ", ", func(v []any) aitch.Node { return htmx.Vars(v...) }, nil},
	{"svg.Accumulate", "attribute", "accumulate", "", func(v []any) aitch.Node { return svg.Accumulate(v...) }, nil},
	{"svg.Additive", "attribute", "additive", "", func(v []any) aitch.Node { return svg.Additive(v...) }, nil},
	{"svg.AlignmentBaseline", "attribute", "alignment-baseline", "", func(v []any) aitch.Node { return svg.AlignmentBaseline(v...) }, nil},
	{"svg.AltGlyph", "element", "altGlyph", "", func(v []any) aitch.Node { return svg.AltGlyph(v...) }, nil},
	{"svg.Animate", "element", "animate", "", func(v []any) aitch.Node { return svg.Animate(v...) }, nil},
	{"svg.AnimateMotion", "element", "animateMotion", "", func(v []any) aitch.Node { return svg.AnimateMotion(v...) }, nil},
	{"svg.AnimateTransform", "element", "animateTransform", "", func(v []any) aitch.Node { return svg.AnimateTransform(v...) }, nil},
	{"svg.AttributeName", "attribute", "attributeName", "", func(v []any) aitch.Node { return svg.AttributeName(v...) }, nil},
	{"svg.AttributeType", "attribute", "attributeType", "", func(v []any) aitch.Node { return svg.AttributeType(v...) }, nil},
	{"svg.BaselineShift", "attribute", "baseline-shift", "", func(v []any) aitch.Node { return svg.BaselineShift(v...) }, nil},
	{"svg.Begin", "attribute", "begin", "", func(v []any) aitch.Node { return svg.Begin(v...) }, nil},
	{"svg.By", "attribute", "by", "", func(v []any) aitch.Node { return svg.By(v...) }, nil},
	{"svg.CalcMode", "attribute", "calcMode", "", func(v []any) aitch.Node { return svg.CalcMode(v...) }, nil},
	{"svg.Circle", "element", "circle", "", func(v []any) aitch.Node { return svg.Circle(v...) }, nil},
	{"svg.Class", "attribute", "class", "", func(v []any) aitch.Node { return svg.Class(v...) }, nil},
	{"svg.Clip", "attribute", "clip", "", func(v []any) aitch.Node { return svg.Clip(v...) }, nil},
	{"svg.ClipPath", "element", "clipPath", "", func(v []any) aitch.Node { return svg.ClipPath(v...) }, nil},
	{"svg.ClipPathAttr", "attribute", "clip-path", "", func(v []any) aitch.Node { return svg.ClipPathAttr(v...) }, nil},
	{"svg.ClipRule", "attribute", "clip-rule", "", func(v []any) aitch.Node { return svg.ClipRule(v...) }, nil},
	{"svg.Color", "attribute", "color", "", func(v []any) aitch.Node { return svg.Color(v...) }, nil},
	{"svg.ColorInterpolation", "attribute", "color-interpolation", "", func(v []any) aitch.Node { return svg.ColorInterpolation(v...) }, nil},
	{"svg.ColorInterpolationFilters", "attribute", "color-interpolation-filters", "", func(v []any) aitch.Node { return svg.ColorInterpolationFilters(v...) }, nil},
	{"svg.ColorProfile", "attribute", "color-profile", "", func(v []any) aitch.Node { return svg.ColorProfile(v...) }, nil},
	{"svg.ColorRendering", "attribute", "color-rendering", "", func(v []any) aitch.Node { return svg.ColorRendering(v...) }, nil},
	{"svg.Cursor", "attribute", "cursor", "", func(v []any) aitch.Node { return svg.Cursor(v...) }, nil},
	{"svg.Cx", "attribute", "cx", "", func(v []any) aitch.Node { return svg.Cx(v...) }, nil},
	{"svg.Cy", "attribute", "cy", "", func(v []any) aitch.Node { return svg.Cy(v...) }, nil},
	{"svg.D", "attribute", "d", "", func(v []any) aitch.Node { return svg.D(v...) }, nil},
	{"svg.Defs", "element", "defs", "", func(v []any) aitch.Node { return svg.Defs(v...) }, nil},
	{"svg.Desc", "element", "desc", "", func(v []any) aitch.Node { return svg.Desc(v...) }, nil},
	{"svg.Direction", "attribute", "direction", "", func(v []any) aitch.Node { return svg.Direction(v...) }, nil},
	{"svg.Discard", "element", "discard", "", func(v []any) aitch.Node { return svg.Discard(v...) }, nil},
	{"svg.Display", "attribute", "display", "", func(v []any) aitch.Node { return svg.Display(v...) }, nil},
	{"svg.DominantBaseline", "attribute", "dominant-baseline", "", func(v []any) aitch.Node { return svg.DominantBaseline(v...) }, nil},
	{"svg.Dur", "attribute", "dur", "", func(v []any) aitch.Node { return svg.Dur(v...) }, nil},
	{"svg.Dx", "attribute", "dx", "", func(v []any) aitch.Node { return svg.Dx(v...) }, nil},
	{"svg.Dy", "attribute", "dy", "", func(v []any) aitch.Node { return svg.Dy(v...) }, nil},
	{"svg.Ellipse", "element", "ellipse", "", func(v []any) aitch.Node { return svg.Ellipse(v...) }, nil},
	{"svg.EnableBackground", "attribute", "enable-background", "", func(v []any) aitch.Node { return svg.EnableBackground(v...) }, nil},
	{"svg.End", "attribute", "end", "", func(v []any) aitch.Node { return svg.End(v...) }, nil},
	{"svg.ExternalResourcesRequired", "attribute", "externalResourcesRequired", "", func(v []any) aitch.Node { return svg.ExternalResourcesRequired(v...) }, nil},
	{"svg.FeBlend", "element", "feBlend", "", func(v []any) aitch.Node { return svg.FeBlend(v...) }, nil},
	{"svg.FeColorMatrix", "element", "feColorMatrix", "", func(v []any) aitch.Node { return svg.FeColorMatrix(v...) }, nil},
	{"svg.FeComponentTransfer", "element", "feComponentTransfer", "", func(v []any) aitch.Node { return svg.FeComponentTransfer(v...) }, nil},
	{"svg.FeComposite", "element", "feComposite", "", func(v []any) aitch.Node { return svg.FeComposite(v...) }, nil},
	{"svg.FeConvolveMatrix", "element", "feConvolveMatrix", "", func(v []any) aitch.Node { return svg.FeConvolveMatrix(v...) }, nil},
	{"svg.FeDiffuseLighting", "element", "feDiffuseLighting", "", func(v []any) aitch.Node { return svg.FeDiffuseLighting(v...) }, nil},
	{"svg.FeDisplacementMap", "element", "feDisplacementMap", "", func(v []any) aitch.Node { return svg.FeDisplacementMap(v...) }, nil},
	{"svg.FeDistantLight", "element", "feDistantLight", "", func(v []any) aitch.Node { return svg.FeDistantLight(v...) }, nil},
	{"svg.FeDropShadow", "element", "feDropShadow", "", func(v []any) aitch.Node { return svg.FeDropShadow(v...) }, nil},
	{"svg.FeFlood", "element", "feFlood", "", func(v []any) aitch.Node { return svg.FeFlood(v...) }, nil},
	{"svg.FeFuncA", "element", "feFuncA", "", func(v []any) aitch.Node { return svg.FeFuncA(v...) }, nil},
	{"svg.FeFuncB", "element", "feFuncB", "", func(v []any) aitch.Node { return svg.FeFuncB(v...) }, nil},
	{"svg.FeFuncG", "element", "feFuncG", "", func(v []any) aitch.Node { return svg.FeFuncG(v...) }, nil},
	{"svg.FeFuncR", "element", "feFuncR", "", func(v []any) aitch.Node { return svg.FeFuncR(v...) }, nil},
	{"svg.FeGaussianBlur", "element", "feGaussianBlur", "", func(v []any) aitch.Node { return svg.FeGaussianBlur(v...) }, nil},
	{"svg.FeImage", "element", "feImage", "", func(v []any) aitch.Node { return svg.FeImage(v...) }, nil},
	{"svg.FeMerge", "element", "feMerge", "", func(v []any) aitch.Node { return svg.FeMerge(v...) }, nil},
	{"svg.FeMergeNode", "element", "feMergeNode", "", func(v []any) aitch.Node { return svg.FeMergeNode(v...) }, nil},
	{"svg.FeMorphology", "element", "feMorphology", "", func(v []any) aitch.Node { return svg.FeMorphology(v...) }, nil},
	{"svg.FeOffset", "element", "feOffset", "", func(v []any) aitch.Node { return svg.FeOffset(v...) }, nil},
	{"svg.FePointLight", "element", "fePointLight", "", func(v []any) aitch.Node { return svg.FePointLight(v...) }, nil},
	{"svg.FeSpecularLighting", "element", "feSpecularLighting", "", func(v []any) aitch.Node { return svg.FeSpecularLighting(v...) }, nil},
	{"svg.FeSpotLight", "element", "feSpotLight", "", func(v []any) aitch.Node { return svg.FeSpotLight(v...) }, nil},
	{"svg.FeTile", "element", "feTile", "", func(v []any) aitch.Node { return svg.FeTile(v...) }, nil},
	{"svg.FeTurbulence", "element", "feTurbulence", "", func(v []any) aitch.Node { return svg.FeTurbulence(v...) }, nil},
	{"svg.Fill", "attribute", "fill", "", func(v []any) aitch.Node { return svg.Fill(v...) }, nil},
	{"svg.FillOpacity", "attribute", "fill-opacity", "", func(v []any) aitch.Node { return svg.FillOpacity(v...) }, nil},
	{"svg.FillRule", "attribute", "fill-rule", "", func(v []any) aitch.Node { return svg.FillRule(v...) }, nil},
	{"svg.Filter", "element", "filter", "", func(v []any) aitch.Node { return svg.Filter(v...) }, nil},
	{"svg.FilterAttr", "attribute", "filter", "", func(v []any) aitch.Node { return svg.FilterAttr(v...) }, nil},
	{"svg.FilterUnits", "attribute", "filterUnits", "", func(v []any) aitch.Node { return svg.FilterUnits(v...) }, nil},
	{"svg.FloodColor", "attribute", "flood-color", "", func(v []any) aitch.Node { return svg.FloodColor(v...) }, nil},
	{"svg.FloodOpacity", "attribute", "flood-opacity", "", func(v []any) aitch.Node { return svg.FloodOpacity(v...) }, nil},
	{"svg.FontFamily", "attribute", "font-family", "", func(v []any) aitch.Node { return svg.FontFamily(v...) }, nil},
	{"svg.FontSize", "attribute", "font-size", "", func(v []any) aitch.Node { return svg.FontSize(v...) }, nil},
	{"svg.FontSizeAdjust", "attribute", "font-size-adjust", "", func(v []any) aitch.Node { return svg.FontSizeAdjust(v...) }, nil},
	{"svg.FontStretch", "attribute", "font-stretch", "", func(v []any) aitch.Node { return svg.FontStretch(v...) }, nil},
	{"svg.FontStyle", "attribute", "font-style", "", func(v []any) aitch.Node { return svg.FontStyle(v...) }, nil},
	{"svg.FontVariant", "attribute", "font-variant", "", func(v []any) aitch.Node { return svg.FontVariant(v...) }, nil},
	{"svg.FontWeight", "attribute", "font-weight", "", func(v []any) aitch.Node { return svg.FontWeight(v...) }, nil},
	{"svg.ForeignObject", "element", "foreignObject", "", func(v []any) aitch.Node { return svg.ForeignObject(v...) }, nil},
	{"svg.From", "attribute", "from", "", func(v []any) aitch.Node { return svg.From(v...) }, nil},
	{"svg.Fx", "attribute", "fx", "", func(v []any) aitch.Node { return svg.Fx(v...) }, nil},
	{"svg.Fy", "attribute", "fy", "", func(v []any) aitch.Node { return svg.Fy(v...) }, nil},
	{"svg.G", "element", "g", "", func(v []any) aitch.Node { return svg.G(v...) }, nil},
	{"svg.Glyph", "element", "glyph", "", func(v []any) aitch.Node { return svg.Glyph(v...) }, nil},
	{"svg.GlyphOrientationHorizontal", "attribute", "glyph-orientation-horizontal", "", func(v []any) aitch.Node { return svg.GlyphOrientationHorizontal(v...) }, nil},
	{"svg.GlyphOrientationVertical", "attribute", "glyph-orientation-vertical", "", func(v []any) aitch.Node { return svg.GlyphOrientationVertical(v...) }, nil},
	{"svg.GradientTransform", "attribute", "gradientTransform", "", func(v []any) aitch.Node { return svg.GradientTransform(v...) }, nil},
	{"svg.GradientUnits", "attribute", "gradientUnits", "", func(v []any) aitch.Node { return svg.GradientUnits(v...) }, nil},
	{"svg.Height", "attribute", "height", "", func(v []any) aitch.Node { return svg.Height(v...) }, nil},
	{"svg.Href", "attribute", "href", "", func(v []any) aitch.Node { return svg.Href(v...) }, nil},
	{"svg.Id", "attribute", "id", "", func(v []any) aitch.Node { return svg.Id(v...) }, nil},
	{"svg.ImageRendering", "attribute", "image-rendering", "", func(v []any) aitch.Node { return svg.ImageRendering(v...) }, nil},
	{"svg.Kerning", "attribute", "kerning", "", func(v []any) aitch.Node { return svg.Kerning(v...) }, nil},
	{"svg.KeyPoints", "attribute", "keyPoints", "", func(v []any) aitch.Node { return svg.KeyPoints(v...) }, nil},
	{"svg.KeySplines", "attribute", "keySplines", "", func(v []any) aitch.Node { return svg.KeySplines(v...) }, nil},
	{"svg.KeyTimes", "attribute", "keyTimes", "", func(v []any) aitch.Node { return svg.KeyTimes(v...) }, nil},
	{"svg.LengthAdjust", "attribute", "lengthAdjust", "", func(v []any) aitch.Node { return svg.LengthAdjust(v...) }, nil},
	{"svg.LetterSpacing", "attribute", "letter-spacing", "", func(v []any) aitch.Node { return svg.LetterSpacing(v...) }, nil},
	{"svg.LightingColor", "attribute", "lighting-color", "", func(v []any) aitch.Node { return svg.LightingColor(v...) }, nil},
	{"svg.Line", "element", "line", "", func(v []any) aitch.Node { return svg.Line(v...) }, nil},
	{"svg.LinearGradient", "element", "linearGradient", "", func(v []any) aitch.Node { return svg.LinearGradient(v...) }, nil},
	{"svg.Marker", "element", "marker", "", func(v []any) aitch.Node { return svg.Marker(v...) }, nil},
	{"svg.MarkerEnd", "attribute", "marker-end", "", func(v []any) aitch.Node { return svg.MarkerEnd(v...) }, nil},
	{"svg.MarkerHeight", "attribute", "markerHeight", "", func(v []any) aitch.Node { return svg.MarkerHeight(v...) }, nil},
	{"svg.MarkerMid", "attribute", "marker-mid", "", func(v []any) aitch.Node { return svg.MarkerMid(v...) }, nil},
	{"svg.MarkerStart", "attribute", "marker-start", "", func(v []any) aitch.Node { return svg.MarkerStart(v...) }, nil},
	{"svg.MarkerUnits", "attribute", "markerUnits", "", func(v []any) aitch.Node { return svg.MarkerUnits(v...) }, nil},
	{"svg.MarkerWidth", "attribute", "markerWidth", "", func(v []any) aitch.Node { return svg.MarkerWidth(v...) }, nil},
	{"svg.Mask", "element", "mask", "", func(v []any) aitch.Node { return svg.Mask(v...) }, nil},
	{"svg.MaskAttr", "attribute", "mask", "", func(v []any) aitch.Node { return svg.MaskAttr(v...) }, nil},
	{"svg.Metadata", "element", "metadata", "", func(v []any) aitch.Node { return svg.Metadata(v...) }, nil},
	{"svg.Mpath", "element", "mpath", "", func(v []any) aitch.Node { return svg.Mpath(v...) }, nil},
	{"svg.OnBlur", "attribute", "onblur", "", func(v []any) aitch.Node { return svg.OnBlur(v...) }, nil},
	{"svg.OnClick", "attribute", "onclick", "", func(v []any) aitch.Node { return svg.OnClick(v...) }, nil},
	{"svg.OnFocus", "attribute", "onfocus", "", func(v []any) aitch.Node { return svg.OnFocus(v...) }, nil},
	{"svg.OnLoad", "attribute", "onload", "", func(v []any) aitch.Node { return svg.OnLoad(v...) }, nil},
	{"svg.OnMouseDown", "attribute", "onmousedown", "", func(v []any) aitch.Node { return svg.OnMouseDown(v...) }, nil},
	{"svg.OnMouseMove", "attribute", "onmousemove", "", func(v []any) aitch.Node { return svg.OnMouseMove(v...) }, nil},
	{"svg.OnMouseOut", "attribute", "onmouseout", "", func(v []any) aitch.Node { return svg.OnMouseOut(v...) }, nil},
	{"svg.OnMouseOver", "attribute", "onmouseover", "", func(v []any) aitch.Node { return svg.OnMouseOver(v...) }, nil},
	{"svg.OnMouseUp", "attribute", "onmouseup", "", func(v []any) aitch.Node { return svg.OnMouseUp(v...) }, nil},
	{"svg.OnUnload", "attribute", "onunload", "", func(v []any) aitch.Node { return svg.OnUnload(v...) }, nil},
	{"svg.Opacity", "attribute", "opacity", "", func(v []any) aitch.Node { return svg.Opacity(v...) }, nil},
	{"svg.Orient", "attribute", "orient", "", func(v []any) aitch.Node { return svg.Orient(v...) }, nil},
	{"svg.Path", "element", "path", "", func(v []any) aitch.Node { return svg.Path(v...) }, nil},
	{"svg.PathAttr", "attribute", "path", "", func(v []any) aitch.Node { return svg.PathAttr(v...) }, nil},
	{"svg.PathLength", "attribute", "pathLength", "", func(v []any) aitch.Node { return svg.PathLength(v...) }, nil},
	{"svg.Pattern", "element", "pattern", "", func(v []any) aitch.Node { return svg.Pattern(v...) }, nil},
	{"svg.PatternContentUnits", "attribute", "patternContentUnits", "", func(v []any) aitch.Node { return svg.PatternContentUnits(v...) }, nil},
	{"svg.PatternTransform", "attribute", "patternTransform", "", func(v []any) aitch.Node { return svg.PatternTransform(v...) }, nil},
	{"svg.PatternUnits", "attribute", "patternUnits", "", func(v []any) aitch.Node { return svg.PatternUnits(v...) }, nil},
	{"svg.PointerEvents", "attribute", "pointer-events", "", func(v []any) aitch.Node { return svg.PointerEvents(v...) }, nil},
	{"svg.Points", "attribute", "points", "", func(v []any) aitch.Node { return svg.Points(v...) }, nil},
	{"svg.Polygon", "element", "polygon", "", func(v []any) aitch.Node { return svg.Polygon(v...) }, nil},
	{"svg.Polyline", "element", "polyline", "", func(v []any) aitch.Node { return svg.Polyline(v...) }, nil},
	{"svg.PreserveAspectRatio", "attribute", "preserveAspectRatio", "", func(v []any) aitch.Node { return svg.PreserveAspectRatio(v...) }, nil},
	{"svg.PrimitiveUnits", "attribute", "primitiveUnits", "", func(v []any) aitch.Node { return svg.PrimitiveUnits(v...) }, nil},
	{"svg.R", "attribute", "r", "", func(v []any) aitch.Node { return svg.R(v...) }, nil},
	{"svg.RadialGradient", "element", "radialGradient", "", func(v []any) aitch.Node { return svg.RadialGradient(v...) }, nil},
	{"svg.Rect", "element", "rect", "", func(v []any) aitch.Node { return svg.Rect(v...) }, nil},
	{"svg.RefX", "attribute", "refX", "", func(v []any) aitch.Node { return svg.RefX(v...) }, nil},
	{"svg.RefY", "attribute", "refY", "", func(v []any) aitch.Node { return svg.RefY(v...) }, nil},
	{"svg.RepeatCount", "attribute", "repeatCount", "", func(v []any) aitch.Node { return svg.RepeatCount(v...) }, nil},
	{"svg.RepeatDur", "attribute", "repeatDur", "", func(v []any) aitch.Node { return svg.RepeatDur(v...) }, nil},
	{"svg.RequiredExtensions", "attribute", "requiredExtensions", "", func(v []any) aitch.Node { return svg.RequiredExtensions(v...) }, nil},
	{"svg.RequiredFeatures", "attribute", "requiredFeatures", "", func(v []any) aitch.Node { return svg.RequiredFeatures(v...) }, nil},
	{"svg.Rotate", "attribute", "rotate", "", func(v []any) aitch.Node { return svg.Rotate(v...) }, nil},
	{"svg.Rx", "attribute", "rx", "", func(v []any) aitch.Node { return svg.Rx(v...) }, nil},
	{"svg.Ry", "attribute", "ry", "", func(v []any) aitch.Node { return svg.Ry(v...) }, nil},
	{"svg.Script", "element", "script", "", func(v []any) aitch.Node { return svg.Script(v...) }, nil},
	{"svg.Set", "element", "set", "", func(v []any) aitch.Node { return svg.Set(v...) }, nil},
	{"svg.ShapeRendering", "attribute", "shape-rendering", "", func(v []any) aitch.Node { return svg.ShapeRendering(v...) }, nil},
	{"svg.SolidColor", "element", "solidcolor", "", func(v []any) aitch.Node { return svg.SolidColor(v...) }, nil},
	{"svg.SpreadMethod", "attribute", "spreadMethod", "", func(v []any) aitch.Node { return svg.SpreadMethod(v...) }, nil},
	{"svg.Stop", "element", "stop", "", func(v []any) aitch.Node { return svg.Stop(v...) }, nil},
	{"svg.StopColor", "attribute", "stop-color", "", func(v []any) aitch.Node { return svg.StopColor(v...) }, nil},
	{"svg.StopOpacity", "attribute", "stop-opacity", "", func(v []any) aitch.Node { return svg.StopOpacity(v...) }, nil},
	{"svg.Stroke", "attribute", "stroke", "", func(v []any) aitch.Node { return svg.Stroke(v...) }, nil},
	{"svg.StrokeDashArray", "attribute", "stroke-dasharray", "", func(v []any) aitch.Node { return svg.StrokeDashArray(v...) }, nil},
	{"svg.StrokeDashOffset", "attribute", "stroke-dashoffset", "", func(v []any) aitch.Node { return svg.StrokeDashOffset(v...) }, nil},
	{"svg.StrokeLineCap", "attribute", "stroke-linecap", "", func(v []any) aitch.Node { return svg.StrokeLineCap(v...) }, nil},
	{"svg.StrokeLineJoin", "attribute", "stroke-linejoin", "", func(v []any) aitch.Node { return svg.StrokeLineJoin(v...) }, nil},
	{"svg.StrokeMiterLimit", "attribute", "stroke-miterlimit", "", func(v []any) aitch.Node { return svg.StrokeMiterLimit(v...) }, nil},
	{"svg.StrokeOpacity", "attribute", "stroke-opacity", "", func(v []any) aitch.Node { return svg.StrokeOpacity(v...) }, nil},
	{"svg.StrokeWidth", "attribute", "stroke-width", "", func(v []any) aitch.Node { return svg.StrokeWidth(v...) }, nil},
	{"svg.Style", "delimited", "style", "; ", func(v []any) aitch.Node { return svg.Style(v...) }, nil},
	{"svg.StyleElement", "element", "style", "", func(v []any) aitch.Node { return svg.StyleElement(v...) }, nil},
	{"svg.Svg", "element", "svg", "", func(v []any) aitch.Node { return svg.Svg(v...) }, nil},
	{"svg.Switch", "element", "switch", "", func(v []any) aitch.Node { return svg.Switch(v...) }, nil},
	{"svg.Symbol", "element", "symbol", "", func(v []any) aitch.Node { return svg.Symbol(v...) }, nil},
	{"svg.SystemLanguage", "attribute", "systemLanguage", "", func(v []any) aitch.Node { return svg.SystemLanguage(v...) }, nil},
	{"svg.TRef", "element", "tref", "", func(v []any) aitch.Node { return svg.TRef(v...) }, nil},
	{"svg.TSpan", "element", "tspan", "", func(v []any) aitch.Node { return svg.TSpan(v...) }, nil},
	{"svg.TabIndex", "attribute", "tabindex", "", func(v []any) aitch.Node { return svg.TabIndex(v...) }, nil},
	{"svg.TextAnchor", "attribute", "text-anchor", "", func(v []any) aitch.Node { return svg.TextAnchor(v...) }, nil},
	{"svg.TextDecoration", "attribute", "text-decoration", "", func(v []any) aitch.Node { return svg.TextDecoration(v...) }, nil},
	{"svg.TextElement", "element", "text", "", func(v []any) aitch.Node { return svg.TextElement(v...) }, nil},
	{"svg.TextLength", "attribute", "textLength", "", func(v []any) aitch.Node { return svg.TextLength(v...) }, nil},
	{"svg.TextPath", "element", "textPath", "", func(v []any) aitch.Node { return svg.TextPath(v...) }, nil},
	{"svg.TextRendering", "attribute", "text-rendering", "", func(v []any) aitch.Node { return svg.TextRendering(v...) }, nil},
	{"svg.Title", "element", "title", "", func(v []any) aitch.Node { return svg.Title(v...) }, nil},
	{"svg.To", "attribute", "to", "", func(v []any) aitch.Node { return svg.To(v...) }, nil},
	{"svg.Type", "attribute", "type", "", func(v []any) aitch.Node { return svg.Type(v...) }, nil},
	{"svg.UnicodeBidi", "attribute", "unicode-bidi", "", func(v []any) aitch.Node { return svg.UnicodeBidi(v...) }, nil},
	{"svg.Use", "element", "use", "", func(v []any) aitch.Node { return svg.Use(v...) }, nil},
	{"svg.Values", "attribute", "values", "", func(v []any) aitch.Node { return svg.Values(v...) }, nil},
	{"svg.View", "element", "view", "", func(v []any) aitch.Node { return svg.View(v...) }, nil},
	{"svg.Visibility", "attribute", "visibility", "", func(v []any) aitch.Node { return svg.Visibility(v...) }, nil},
	{"svg.Width", "attribute", "width", "", func(v []any) aitch.Node { return svg.Width(v...) }, nil},
	{"svg.WordSpacing", "attribute", "word-spacing", "", func(v []any) aitch.Node { return svg.WordSpacing(v...) }, nil},
	{"svg.WritingMode", "attribute", "writing-mode", "", func(v []any) aitch.Node { return svg.WritingMode(v...) }, nil},
	{"svg.X", "attribute", "x", "", func(v []any) aitch.Node { return svg.X(v...) }, nil},
	{"svg.X1", "attribute", "x1", "", func(v []any) aitch.Node { return svg.X1(v...) }, nil},
	{"svg.X2", "attribute", "x2", "", func(v []any) aitch.Node { return svg.X2(v...) }, nil},
	{"svg.XlinkActuate", "attribute", "xlink:actuate", "", func(v []any) aitch.Node { return svg.XlinkActuate(v...) }, nil},
	{"svg.XlinkArcrole", "attribute", "xlink:arcrole", "", func(v []any) aitch.Node { return svg.XlinkArcrole(v...) }, nil},
	{"svg.XlinkHref", "attribute", "xlink:href", "", func(v []any) aitch.Node { return svg.XlinkHref(v...) }, nil},
	{"svg.XlinkRole", "attribute", "xlink:role", "", func(v []any) aitch.Node { return svg.XlinkRole(v...) }, nil},
	{"svg.XlinkShow", "attribute", "xlink:show", "", func(v []any) aitch.Node { return svg.XlinkShow(v...) }, nil},
	{"svg.XlinkTitle", "attribute", "xlink:title", "", func(v []any) aitch.Node { return svg.XlinkTitle(v...) }, nil},
	{"svg.XmlBase", "attribute", "xml:base", "", func(v []any) aitch.Node { return svg.XmlBase(v...) }, nil},
	{"svg.XmlLang", "attribute", "xml:lang", "", func(v []any) aitch.Node { return svg.XmlLang(v...) }, nil},
	{"svg.XmlSpace", "attribute", "xml:space", "", func(v []any) aitch.Node { return svg.XmlSpace(v...) }, nil},
	{"svg.Y", "attribute", "y", "", func(v []any) aitch.Node { return svg.Y(v...) }, nil},
	{"svg.Y1", "attribute", "y1", "", func(v []any) aitch.Node { return svg.Y1(v...) }, nil},
	{"svg.Y2", "attribute", "y2", "", func(v []any) aitch.Node { return svg.Y2(v...) }, nil},
}
